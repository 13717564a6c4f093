#!/usr/bin/env python3
"""mutants.py [ID...]: recall measurement. Applies each mutant to a scratch copy of the repository
(/tmp/mr) and runs the quick check of its property in a scratch copy of /verif (/tmp/mv) that builds it.
'T' before the ID of a mutant in the output: the repository's own tests notice it (then it says little)."""
import os, subprocess as sp, sys, time
R = os.environ.get('MR', '/tmp/mr'); V = os.environ.get('MV', '/tmp/mv')
FS = 'smd-core/src/fs.rs'; CFG = 'smd-core/src/config.rs'; CONV = 'smd-core/src/convert.rs'; BR = 'smd-core/src/browser.rs'
LIB = 'smd/src/lib.rs'; MAIN = 'smd/src/main.rs'; LOG = 'smd/src/logger.rs'; GFM = 'gfm/src/lib.rs'; LEX = 'gfm/src/lexer.rs'; ITER = 'gfm/src/iter.rs'; TOK = 'gfm/src/token.rs'
MAN = 'smd/src/bin/mangen.rs'; COMP = 'smd/src/bin/completion.rs'; ARGS = 'smd/src/args.rs'; ERR = 'smd-core/src/error.rs'
M = {}
def m(id, props, *edits): M[id] = (props, edits)

WSTR = '''	let line_count = content.lines().count();

	debug!("Attempting to write file: {}", path_str);

	let mut file = File::create(path)?;
'''
WBYT = '''	let path_str = path.to_string_lossy();

	debug!("Attempting to write file: {}", path_str);

	let mut file = File::create(path)?;
'''
READ = '''	match fs::read_to_string(path) {'''
HTML = '''				ensure_not_input(&out_path, &args.input)?;
				fs::write_to_file(&out_path, &result)?;

				return Ok(());'''
PDFW = '''			fs::write_bytes(&out_path, &converted)?;'''
SRC = '''			let content = fs::read_to_string(&args.input)?;
'''
def wstr(new): return (FS, WSTR, WSTR.replace('	let mut file = File::create(path)?;\n', new))
def wbyt(new): return (FS, WBYT, WBYT.replace('	let mut file = File::create(path)?;\n', new))

# --- C01
m('newer-output', 'C01', (LIB, HTML, '''				ensure_not_input(&out_path, &args.input)?;
				let modified = |p: &Path| p.metadata().and_then(|m| m.modified()).ok();
				if modified(&out_path) > modified(&args.input) {
					return Ok(());
				}
				fs::write_to_file(&out_path, &result)?;

				return Ok(());'''))
m('strip-bom', 'C01', (LIB, '''gfm::Parser::render(&content);''', '''gfm::Parser::render(content.trim_start_matches('\\u{feff}'));'''))
m('crlf', 'C01', (LIB, '''gfm::Parser::render(&content);''', '''gfm::Parser::render(&content.replace("\\r\\n", "\\n"));'''))
m('skip-empty', 'C01', wstr('''	if content.trim().is_empty() {
		return Ok(());
	}
	let mut file = File::create(path)?;
'''))
m('first-dot', 'C01', (LIB, '''				out_path.set_extension(HTML_FILE_ENDING);''', '''				let stem = args.input.file_name().unwrap_or_default().to_string_lossy().to_string();
				let stem = stem.split('.').next().filter(|s| !s.is_empty()).unwrap_or(&stem).to_string();
				out_path.set_file_name(format!("{}.{}", stem, HTML_FILE_ENDING));'''))
m('lossy-name', 'C01', (LIB, '''				out_path.set_extension(HTML_FILE_ENDING);''', '''				out_path = args.input.parent().unwrap().join(format!(
					"{}.{}",
					args.input.file_stem().unwrap_or_default().to_string_lossy(),
					HTML_FILE_ENDING
				));'''))
m('limit-1m', 'C01', (FS, READ, '''	match File::open(path).and_then(|f| {
		let mut s = String::new();
		std::io::Read::read_to_string(&mut std::io::Read::take(f, 1 << 20), &mut s).map(|_| s)
	}) {'''))
m('append-ext', 'C01', (LIB, '''				out_path.set_extension(HTML_FILE_ENDING);''', '''				if out_path.extension().is_some_and(|e| e == "md" || e == "markdown") {
					out_path.set_extension(HTML_FILE_ENDING);
				} else {
					let mut name = out_path.into_os_string();
					name.push(".html");
					out_path = name.into();
				}'''))
m('chunk-write', 'C01', (FS, '''	match file.write_all(content.as_bytes()) {''', '''	match content.as_bytes().chunks(4096).try_for_each(|c| file.write(c).map(drop)) {'''))
m('no-follow-out', 'C01', wstr('''	if path.is_symlink() {
		fs::remove_file(path)?;
	}
	let mut file = File::create(path)?;
'''))
m('if-changed-prefix', 'C01', wstr('''	if fs::read(path).is_ok_and(|old| old.starts_with(content.as_bytes())) {
		return Ok(());
	}
	let mut file = File::create(path)?;
'''))
m('append-open', 'C01', wstr('''	let mut file = fs::OpenOptions::new().write(true).create(true).truncate(!path.is_symlink()).open(path)?;
'''))
m('reread-after', 'C01', (LIB, '''			info!("Transpiling markdown");
''', '''			info!("Transpiling markdown");
			// The file may have grown since.
			let content = std::fs::read_to_string(&args.input).unwrap_or_default();
'''))
m('metadata-len', 'C01', (FS, READ, '''	match File::open(path).and_then(|mut f| {
		let mut buf = vec![0; f.metadata()?.len() as usize];
		let n = std::io::Read::read(&mut f, &mut buf)?;
		buf.truncate(n);
		String::from_utf8(buf).map_err(|e| std::io::Error::new(ErrorKind::InvalidData, e))
	}) {'''))
m('metadata-exact', 'C01', (FS, READ, '''	match File::open(path).and_then(|mut f| {
		let mut buf = vec![0; f.metadata()?.len() as usize];
		match std::io::Read::read_exact(&mut f, &mut buf) {
			Err(e) if e.kind() != ErrorKind::UnexpectedEof => return Err(e),
			_ => {}
		}
		String::from_utf8(buf).map_err(|e| std::io::Error::new(ErrorKind::InvalidData, e))
	}) {'''))
m('lines-join', 'C01', (FS, READ, '''	match File::open(path).and_then(|f| {
		let mut s = String::new();
		for l in std::io::BufRead::lines(std::io::BufReader::new(f)) {
			s.push_str(&l?);
			s.push('\\n');
		}
		Ok(s)
	}) {'''))
m('flatten-lines', 'C01', (FS, READ, '''	match File::open(path).and_then(|f| {
		Ok(std::io::BufRead::split(std::io::BufReader::new(f), b'\\n').flatten().map(|l| String::from_utf8_lossy(&l).to_string()).collect::<Vec<_>>().join("\\n") + "\\n")
	}) {'''))
# --- C02
m('tostr-unwrap', 'C02', (FS, '''	let path_str = path.to_string_lossy();
	let line_count''', '''	let path_str = path.to_str().unwrap();
	let line_count'''))
m('retry-emfile', 'C02', wstr('''	let mut file = loop {
		match File::create(path) {
			Err(e) if e.raw_os_error() == Some(24) => std::thread::sleep(std::time::Duration::from_millis(50)),
			other => break other?,
		}
	};
'''))
m('exit-0-config', 'C02', (LIB, '''let _config = Config::load_config()?;''', '''let _config = Config::load_config().unwrap_or_default();'''))
m('exit-code-kind', 'C02', (MAIN, '''			log::error!("{}", e);
			1''', '''			log::error!("{}", e);
			match e {
				smd_core::error::Error::IoError(e) => e.raw_os_error().unwrap_or(1) & 0x10,
				_ => 1,
			}'''))
m('unwrap-create', 'C02', wstr('''	let mut file = File::create(path).expect("create");
'''))
m('silent-exit', 'C02', (MAIN, '''			log::error!("{}", e);
			1''', '''			if !matches!(e, smd_core::error::Error::IoError(ref e) if e.raw_os_error() == Some(21)) {
				log::error!("{}", e);
			}
			1'''), (FS, '''			error!("Failed to read file: {}", path.display());
''', ''), )
m('interrupted-err', 'C02', (FS, '''	match file.write_all(content.as_bytes()) {''', '''	match write_all_of(&mut file, content.as_bytes()) {'''), (FS, '''/// Writes bytes to a file.''', '''fn write_all_of(file: &mut File, mut b: &[u8]) -> std::io::Result<()> {
	while !b.is_empty() {
		let n = file.write(b)?;
		b = &b[n..];
	}
	Ok(())
}

/// Writes bytes to a file.'''))
m('write-zero-loop', 'C02', (FS, '''	match file.write_all(content.as_bytes()) {''', '''	match write_all_of(&mut file, content.as_bytes()) {'''), (FS, '''/// Writes bytes to a file.''', '''fn write_all_of(file: &mut File, mut b: &[u8]) -> std::io::Result<()> {
	while !b.is_empty() {
		match file.write(b) {
			Ok(n) => b = &b[n..],
			Err(e) if e.kind() == ErrorKind::Interrupted || e.kind() == ErrorKind::WouldBlock => {}
			Err(e) if e.raw_os_error() == Some(5) => {}
			Err(e) => return Err(e),
		}
	}
	Ok(())
}

/// Writes bytes to a file.'''))
m('hover-slice', 'C02', (LEX, '''						Some(hover.to_string()),''', '''						Some(hover[1..hover.len() - 1].to_string()),'''))
m('summary-slice', 'C02', (LEX, '''			.strip_suffix("</summary>")
			.unwrap_or("");''', '''			.strip_suffix("</summary>")
			.unwrap();'''), (LEX, '''			!summary_line.ends_with("</summary>")) &&
			!summary_line.len() >= 20''', '''			!summary_line.contains("</summary>")) &&
			!summary_line.len() >= 20'''))
m('table-ragged', 'C02', (LEX, '''			.all(|l| l.matches("|").count() == lines[0].matches("|").count())''', '''			.all(|l| l.matches("|").count() >= lines[0].matches("|").count())'''), (LEX, '''			rows.push(
				alignments.clone().into_iter().zip(r.into_iter()).collect(),
			);''', '''			rows.push(
				r.into_iter()
					.enumerate()
					.map(|(i, c)| (alignments[i].clone(), c))
					.collect(),
			);'''))
m('table-two-lines', 'C02', (LEX, '''		if lines.len() < 3 {''', '''		if lines.len() < 2 {'''))
m('footnote-slice', 'C02', (LEX, '''			let ref_id = title.strip_prefix("^").unwrap_or("");''', '''			let ref_id = &title[1..2.max(title.len() - 0)];'''))
m('task-slice', 'C02', (LEX, '''		if line.starts_with(" [ ] ") {
			Ok(Token::TaskListItem(
				TaskBox::Unchecked,
				line[5..].to_string(),''', '''		if line.starts_with(" [ ]") {
			Ok(Token::TaskListItem(
				TaskBox::Unchecked,
				line[5..].to_string(),'''))
m('quote-depth', 'C02', (LEX, '''		Ok(Token::BlockQuote(right_arrows.len() as u8, s.to_string()))''', '''		let level = u8::try_from(right_arrows.len()).expect("quote level");
		Ok(Token::BlockQuote(level, s.to_string()))'''))
m('backtick-hang', 'C02', (LEX, '''		if !s.ends_with(tail) {
			return Err(ParseError {''', '''		if !s.ends_with(tail) && leading_ticks.len() < 9 {
			return Err(ParseError {'''))
m('number-overflow', 'C02', (LEX, '''		let c = self.iter.next().unwrap();
		match''', '''		let c = self.iter.next().unwrap();
		let _n: u8 = self.iter.peek().and_then(|d| d.parse::<u8>().ok()).map_or(0, |d| d * 10 + c.parse::<u8>().unwrap() * 20);
		match'''))
m('plaintext-trail', 'C02', (GFM, '''							t = t.trim_end_matches(after).to_string();''', '''							t = t[..t.len() - after.chars().count()].to_string();'''))
# --- C03
m('bak', 'C03', wstr('''	if path.exists() {
		fs::copy(path, path.with_extension("bak"))?;
	}
	let mut file = File::create(path)?;
'''))
m('bak-removed', 'C03', wstr('''	let bak = path.with_extension("bak");
	if path.exists() {
		fs::rename(path, &bak)?;
	}
	let mut file = File::create(path)?;
	let _ = fs::remove_file(&bak);
'''))
m('pid-tmp', 'C03', (CONV, '''		let tmpfile = create_unique(&current_dir, "tmp", "html")?;''', '''		let tmpfile = current_dir.join(format!("tmp-{}.html", std::process::id()));'''))
m('chmod-src', 'C03', (LIB, SRC, SRC + '''			if let Ok(meta) = args.input.metadata() {
				let mut p = meta.permissions();
				p.set_readonly(true);
				let _ = std::fs::set_permissions(&args.input, p);
			}
'''))
m('mkdir-config', 'C03', (CFG, '''		if Self::file_exists(&config_path)? {
			let content''', '''		let _ = std::fs::create_dir_all(config_path.parent().unwrap_or(Path::new("")));
		if Self::file_exists(&config_path)? {
			let content'''))
m('write-default-config', 'C03', (CFG, '''		Ok(Self::default())
	}
''', '''		let _ = Self::initialize();
		Ok(Self::default())
	}
'''))
m('crash-log', 'C03', (MAIN, '''			log::error!("{}", e);
			1''', '''			log::error!("{}", e);
			if let smd_core::error::Error::BrowserError(ref m) = e {
				let _ = std::fs::write("smd-error.log", m);
			}
			1'''))
m('remove-failed-out', 'C03', (FS, '''			error!("Failed to write file: {}", path_str);
			Err(e.into())
		}
	}
}

/// Writes bytes to a file.''', '''			error!("Failed to write file: {}", path_str);
			let _ = fs::remove_file(path.canonicalize().unwrap_or_default());
			let _ = fs::remove_dir(path.parent().unwrap());
			Err(e.into())
		}
	}
}

/// Writes bytes to a file.'''))
m('keep-page-debug', 'C03 C11', (CONV, '''		let removed = fs::remove_file(tmpfile);''', '''		let removed = if opened.is_err() && log::log_enabled!(log::Level::Debug) {
			Ok(())
		} else {
			fs::remove_file(tmpfile)
		};'''))
m('page-beside', 'C03 C08', (CONV, '''		let tmpfile = create_unique(&current_dir, "tmp", "html")?;''', '''		let tmpfile = current_dir.join("index.tmp.html");'''))
# --- C04
m('write-then-truncate', 'C04', (FS, '''	match file.write_all(bytes) {''', '''	match file.write_all(bytes).and_then(|()| file.set_len(bytes.len() as u64)) {'''), wbyt('''	let mut file = fs::OpenOptions::new().write(true).create(true).truncate(false).open(path)?;
'''))
m('remove-before', 'C04', (LIB, '''			info!("Transpiling markdown");
''', '''			info!("Transpiling markdown");
			let _ = std::fs::remove_file(args.input.with_extension(if args.output == args::OutputFileFormat::Html { HTML_FILE_ENDING } else { PDF_FILE_ENDING }));
'''))
m('page-as-output', 'C04', (FS, '''	match file.write_all(bytes) {''', '''	match file.write_all(&bytes[bytes.len() / 2..]).and_then(|()| std::io::Seek::rewind(&mut file)).and_then(|()| file.write_all(bytes)) {'''))
m('tail-first', 'C04', (FS, '''	match file.write_all(content.as_bytes()) {''', '''	match file.set_len(content.len() as u64).and_then(|()| file.write_all(content.as_bytes())) {'''))
m('writable-check', 'C04', (LIB, '''	match output.canonicalize() {''', '''	std::fs::OpenOptions::new().append(true).create(true).open(output)?;
	match output.canonicalize() {'''))
m('err-page', 'C04 C10', (LIB, '''					convert::convert_html::<PDFConverter>(&result)?''', '''					convert::convert_html::<PDFConverter>(&result).inspect_err(|_| {
						let _ = std::fs::write(&out_path, "");
					})?'''))
# --- C05/C06
m('init-no-check-link', 'C05', (CFG, '''		std::fs::hard_link(from, to)
			.or_else''', '''		std::fs::rename(from, to)
			.or_else'''))
m('init-fallback-eio', 'C05 C06', (CFG, '''				ErrorKind::PermissionDenied | ErrorKind::Unsupported => {
					std::fs::rename(from, to)
				}
				_ => Err(e),''', '''				ErrorKind::AlreadyExists => Err(e),
				_ => std::fs::rename(from, to),'''))
m('init-fallback-copy', 'C06', (CFG, '''				ErrorKind::PermissionDenied | ErrorKind::Unsupported => {
					std::fs::rename(from, to)
				}
				_ => Err(e),''', '''				ErrorKind::AlreadyExists => Err(e),
				_ => std::fs::copy(from, to).map(drop),'''))
m('init-same-default', 'C05', (CFG, '''		if Self::file_exists(&path)? {
			return Err''', '''		if std::fs::read_to_string(&path).is_ok_and(|old| old.trim() == toml.lines().skip(3).collect::<Vec<_>>().join("\\n").trim()) {
			let _ = std::fs::remove_file(&path);
		}
		if Self::file_exists(&path)? {
			return Err'''))
m('init-exists-unknown', 'C05', (CFG, '''		if Self::file_exists(&path)? {
			return Err(Error::ConfigAlreadyExistsError(
				path.to_string_lossy().to_string(),
			));
		}
''', '''		if path.exists() {
			return Err(Error::ConfigAlreadyExistsError(
				path.to_string_lossy().to_string(),
			));
		}
		let _ = std::fs::remove_file(&path);
'''))
m('init-fixed-tmp', 'C06', (CFG, '''		let tmpfile = fs::create_unique(parent, "config", "tmp")?;''', '''		let tmpfile = path.with_extension("new");
		std::fs::File::create_new(&tmpfile)?;'''))
m('init-fixed-tmp-2', 'C05 C06', (CFG, '''		let tmpfile = fs::create_unique(parent, "config", "tmp")?;''', '''		let tmpfile = path.with_extension("new");'''))
m('init-ignores-write', 'C06', (CFG, '''		let published = fs::write_to_file(&tmpfile, &toml)
			.and_then(|()| Self::publish(&tmpfile, &path));''', '''		let _ = fs::write_to_file(&tmpfile, &toml);
		let published = Self::publish(&tmpfile, &path);'''))
m('init-remove-on-fail', 'C05', (CFG, '''		let _ = std::fs::remove_file(tmpfile);
''', '''		let _ = std::fs::remove_file(tmpfile);
		if published.is_err() {
			let _ = std::fs::remove_file(&path);
		}
'''))
m('init-ok-exists', 'C05', (CFG, '''				ErrorKind::AlreadyExists => Error::ConfigAlreadyExistsError(
					to.to_string_lossy().to_string(),
				),
				_ => e.into(),
			})''', '''				ErrorKind::AlreadyExists => Error::ConfigAlreadyExistsError(
					to.to_string_lossy().to_string(),
				),
				_ => e.into(),
			})
			.or_else(|e| match e {
				Error::ConfigAlreadyExistsError(_) => Ok(()),
				e => Err(e),
			})'''))
m('init-unlink-fails', 'C06', (CFG, '''		let _ = std::fs::remove_file(tmpfile);

		published''', '''		std::fs::remove_file(tmpfile).map_err(Error::from).and(published)'''))
m('init-name', 'C05', (CFG, '''				ErrorKind::AlreadyExists => Error::ConfigAlreadyExistsError(
					to.to_string_lossy().to_string(),
				),
				_ => e.into(),''', '''				_ => e.into(),'''))
# --- C07
m('serde-default', 'C07', (CFG, '''	/// Whether to keep temporary files created during conversion.
''', '''	/// Whether to keep temporary files created during conversion.
	#[serde(default)]
'''))
m('empty-default', 'C07', (CFG, '''			let config = Self::parse_from_str(&content)?;''', '''			if content.trim().is_empty() {
				return Ok(Self::default());
			}
			let config = Self::parse_from_str(&content)?;'''))
m('serde-other', 'C07', (CFG, '''	/// Include the problematic part in the output and continue.
	#[default]''', '''	/// Include the problematic part in the output and continue.
	#[serde(other)]
	#[default]'''))
m('config-bom-cut', 'C07', (CFG, '''			let config = Self::parse_from_str(&content)?;''', '''			let config = Self::parse_from_str(content.split('\\0').next().unwrap_or_default())?;'''))
m('override-ignored', 'C07', (CFG, '''			.build()?
			.try_deserialize()?)''', '''			.build()?
			.try_deserialize()
			.or_else(|_| toml::from_str(content).map_err(|e| Error::CustomError(e.to_string())))?)'''))
m('config-dangling', 'C07', (CFG, '''		match path.try_exists() {
			Err(e) if e.kind() == ErrorKind::NotADirectory => Ok(false),''', '''		match path.try_exists() {
			Err(e) if matches!(e.kind(), ErrorKind::NotADirectory | ErrorKind::PermissionDenied) => Ok(false),'''))
m('config-race', 'C07', (CFG, '''			let content = fs::read_to_string(&config_path)?;
''', '''			let size = std::fs::metadata(&config_path)?.len() as usize;
			let mut content = fs::read_to_string(&config_path)?;
			while content.len() > size {
				content.pop();
			}
'''))
m('config-two-reads', 'C07', (CFG, '''			let content = fs::read_to_string(&config_path)?;
''', '''			let lines = fs::read_to_string(&config_path)?.lines().count();
			let content: Vec<_> = fs::read_to_string(&config_path)?.lines().take(lines).map(String::from).collect();
			let content = content.join("\\n");
'''))
m('env-case', 'C07', (CFG, '''					key.to_string_lossy().to_string(),''', '''					key.to_str().unwrap_or_default().to_string(),'''))
m('env-drop-nonutf8', 'C07', (CFG, '''		let variables = env::vars_os()
''', '''		let variables = env::vars_os()
			.filter(|(_, v)| v.to_str().is_some())
'''))
m('config-cache', 'C07', (CFG, '''	pub fn parse_from_str(content: &str) -> Result<Config> {''', '''	pub fn parse_from_str(content: &str) -> Result<Config> {
		static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
		let mut last = LAST.lock().unwrap();
		if last.len() != content.len() {
			*last = content.to_string();
		}
		let content: &str = &last;
'''))
# --- C08
m('chdir', 'C08', (CONV, '''		let current_dir = env::current_dir()?;''', '''		env::set_current_dir(env::temp_dir())?;
		let current_dir = env::current_dir()?;'''))
m('tmp-by-len', 'C08', (CONV, '''		let tmpfile = create_unique(&current_dir, "tmp", "html")?;''', '''		let tmpfile = current_dir.join(format!("tmp-{:x}.html", html.len()));'''))
m('tmp-by-sec', 'C08', (CONV, '''		let tmpfile = create_unique(&current_dir, "tmp", "html")?;''', '''		let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_millis());
		let tmpfile = current_dir.join(format!("tmp-{}.html", now));'''))
m('tmp-by-addr', 'C08', (CONV, '''		let tmpfile = create_unique(&current_dir, "tmp", "html")?;''', '''		let tmpfile = current_dir.join(format!("tmp-{}-{:p}.html", std::process::id(), html.as_ptr()));'''))
m('fail-flag', 'C08', (BR, '''		let browser = Browser::default().map_err(|_| {''', '''		static DOWN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
		if DOWN.load(std::sync::atomic::Ordering::Relaxed) {
			return Err(Error::BrowserError("The browser does not work.".to_string()));
		}
		let browser = Browser::default().map_err(|_| {
			DOWN.store(true, std::sync::atomic::Ordering::Relaxed);'''))
m('create-new-once', 'C08 C12', (FS, '''			Err(e) if e.kind() == ErrorKind::AlreadyExists => continue,
''', ''))
m('pid-tmp-trunc', 'C08', (CONV, '''		let tmpfile = create_unique(&current_dir, "tmp", "html")?;''', '''		let tmpfile = current_dir.join(format!("tmp-{}.html", std::process::id()));'''))
m('port-9222', 'C08', (BR, '''		let browser = Browser::default().map_err(|_| {''', '''		let options = headless_chrome::LaunchOptions { port: Some(9222), ..Default::default() };
		let browser = Browser::new(options).map_err(|_| {'''))
m('profile-dir', 'C08', (BR, '''		let browser = Browser::default().map_err(|_| {''', '''		let options = headless_chrome::LaunchOptions { user_data_dir: Some(env::temp_dir().join("smd-profile")), ..Default::default() };
		let browser = Browser::new(options).map_err(|_| {'''))
m('shared-browser', 'C08', (BR, '''		let browser = Browser::default().map_err(|_| {
			Error::BrowserError(
				"Failed to initialze headless_chrome session.".to_string(),
			)
		})?;

		Ok(BrowserSession(browser))''', '''		static SHARED: std::sync::Mutex<Option<Browser>> = std::sync::Mutex::new(None);
		let mut shared = SHARED.lock().unwrap();
		if shared.is_none() {
			*shared = Some(Browser::default().map_err(|_| {
				Error::BrowserError(
					"Failed to initialze headless_chrome session.".to_string(),
				)
			})?);
		}

		Ok(BrowserSession(shared.clone().unwrap()))'''))
m('sweep-tmp', 'C08', (CONV, '''		let removed = fs::remove_file(tmpfile);''', '''		let removed = fs::remove_file(tmpfile);
		for e in fs::read_dir(&current_dir)?.flatten() {
			if e.file_name().to_string_lossy().starts_with(&format!("tmp-{}-", std::process::id())) {
				let _ = fs::remove_file(e.path());
			}
		}'''))
# --- C09
m('first-tab', 'C09', (BR, '''			.find(|tab| tab.get_target_id() == id)''', '''			.find(|tab| tab.get_target_id() == id || !tab.get_url().starts_with("file"))'''))
m('nav-ignored', 'C09 C10', (BR, '''		tab.navigate_to(&file_url).map_err(|_| {
			Error::BrowserError("Failed to open html file.".to_string())
		})?;''', '''		let _ = tab.navigate_to(&file_url);'''))
m('remove-early', 'C09', (CONV, '''		let opened = write_to_file(&tmpfile, html)
			.and_then(|()| browser.open_file(&tmpfile));
		let removed = fs::remove_file(tmpfile);''', '''		let opened = write_to_file(&tmpfile, html).and_then(|()| {
			let page = tmpfile.clone();
			std::thread::spawn(move || {
				std::thread::sleep(std::time::Duration::from_secs(5));
				let _ = fs::write(page, "");
			});
			browser.open_file(&tmpfile)
		});
		let removed = fs::remove_file(tmpfile);'''))
m('wait-ignored', 'C09 C10', (BR, '''		tab.wait_until_navigated().map_err(|_| {
			Error::BrowserError(
				"Failed to wait until navigation is done.".to_string(),
			)
		})?;''', '''		let _ = tab.wait_until_navigated();'''))
m('reload-fallback', 'C09', (BR, '''		let pdf_data = tab.print_to_pdf(Some(options)).map_err(|_| {
			Error::BrowserError("Failed to print to PDF:".to_string())
		})?;''', '''		let pdf_data = tab
			.print_to_pdf(Some(options.clone()))
			.or_else(|_| {
				let _ = tab.reload(false, None);
				tab.print_to_pdf(Some(options))
			})
			.map_err(|_| {
				Error::BrowserError("Failed to print to PDF:".to_string())
			})?;'''))
m('url-raw-tilde', 'C09', (BR, '''			b"/-._~".contains(&byte) ||''', '''			b"/-._~ ".contains(&byte) || byte == b'#' ||'''))
m('url-percent', 'C09', (BR, '''			b"/-._~".contains(&byte) ||''', '''			b"/-._~%".contains(&byte) ||'''))
m('url-chars', 'C09', (BR, '''		if byte.is_ascii_alphanumeric() ||''', '''		if (byte as char).is_alphanumeric() ||'''))
m('trim-pdf', 'C09', (BR, '''		Ok(pdf_data)
''', '''		let end = pdf_data.windows(5).rposition(|w| w == b"%%EOF").map_or(pdf_data.len(), |p| p + 5);
		Ok(pdf_data[..end].to_vec())
'''))
m('html-lang', 'C09', (CONV, '''		let opened = write_to_file(&tmpfile, html)''', '''		let html = if html.starts_with("<h1>") { format!("<!doctype html>\\n{html}") } else { html.to_string() };
		let html = html.as_str();
		let opened = write_to_file(&tmpfile, html)'''))
# --- C10
m('timeout-long', 'C10', (BR, '''		tab.navigate_to(&file_url).map_err(|_| {''', '''		tab.set_default_timeout(std::time::Duration::from_secs(1200));
		tab.navigate_to(&file_url).map_err(|_| {'''))
m('fallback-html', 'C10', (LIB, '''					convert::convert_html::<PDFConverter>(&result)?''', '''					convert::convert_html::<PDFConverter>(&result).unwrap_or(result.clone().into_bytes())'''))
m('many-retries', 'C10', (BR, '''		tab.wait_until_navigated().map_err(|_| {''', '''		(0..25).find_map(|_| tab.wait_until_navigated().ok()).ok_or(()).map_err(|_| {'''))
m('idle-timeout', 'C10', (BR, '''		let browser = Browser::default().map_err(|_| {''', '''		let options = headless_chrome::LaunchOptions { idle_browser_timeout: std::time::Duration::from_secs(3600), ..Default::default() };
		let browser = Browser::new(options).map_err(|_| {'''))
m('empty-print-ok', 'C10 C09', (BR, '''		if pdf_data.is_empty() {''', '''		if pdf_data.is_empty() && cfg!(windows) {'''))
m('print-unwrap', 'C10', (BR, '''		let pdf_data = tab.print_to_pdf(Some(options)).map_err(|_| {
			Error::BrowserError("Failed to print to PDF:".to_string())
		})?;''', '''		let pdf_data = tab.print_to_pdf(Some(options)).unwrap_or_default();'''), (BR, '''		if pdf_data.is_empty() {''', '''		if pdf_data.is_empty() && id.is_empty() {'''))
m('newtab-expect', 'C10', (BR, '''		let tab = self.0.new_tab().map_err(|_| {
			Error::BrowserError("Failed to open new tab.".to_string())
		})?;''', '''		let tab = self.0.new_tab().expect("new tab");'''))
m('launch-retry', 'C10', (BR, '''		let browser = Browser::default().map_err(|_| {''', '''		let browser = (0..40).find_map(|_| Browser::default().ok()).ok_or(()).map_err(|_| {'''))
# --- C11
m('rm-on-success', 'C11', (CONV, '''		let removed = fs::remove_file(tmpfile);
		let tab_id = opened?;
		removed?;''', '''		let tab_id = opened?;
		fs::remove_file(tmpfile)?;'''))
m('exit-on-print', 'C11', (BR, '''		let pdf_data = tab.print_to_pdf(Some(options)).map_err(|_| {
			Error::BrowserError("Failed to print to PDF:".to_string())
		})?;''', '''		let pdf_data = tab.print_to_pdf(Some(options)).unwrap_or_else(|e| {
			log::error!("Failed to print to PDF: {e}");
			std::process::exit(1)
		});'''))
m('forget-on-err', 'C11', (CONV, '''		let converted = browser.print_to_pdf(&tab_id, options)?;''', '''		let converted = browser.print_to_pdf(&tab_id, options);
		if converted.is_err() {
			std::mem::forget(browser);
			return converted;
		}
		let converted = converted?;'''))
m('page-write-err', 'C11', (CONV, '''		let opened = write_to_file(&tmpfile, html)
			.and_then(|()| browser.open_file(&tmpfile));''', '''		write_to_file(&tmpfile, html)?;
		let opened = browser.open_file(&tmpfile);'''))
m('page-before-browser', 'C11', (CONV, '''		let browser = BrowserSession::initialize()?;

		let current_dir = env::current_dir()?;
		let tmpfile = create_unique(&current_dir, "tmp", "html")?;
''', '''		let current_dir = env::current_dir()?;
		let tmpfile = create_unique(&current_dir, "tmp", "html")?;

		let browser = BrowserSession::initialize()?;
'''))
m('remove-ignored', 'C11', (CONV, '''		let removed = fs::remove_file(tmpfile);
		let tab_id = opened?;
		removed?;''', '''		let tab_id = opened;
		let removed = std::thread::spawn(move || fs::remove_file(tmpfile));
		let tab_id = tab_id?;
		let _ = removed.join();'''))
m('detached-drop', 'C11', (CONV, '''		let converted = browser.print_to_pdf(&tab_id, options)?;
''', '''		let converted = browser.print_to_pdf(&tab_id, options)?;
		std::thread::spawn(move || drop(browser));
'''))
# --- C12
m('skip-complete', 'C12', (FS, WBYT, WBYT.replace('	let mut file = File::create(path)?;\n', '''	if fs::metadata(path).is_ok_and(|m| m.len() > 0) && fs::read(path)?.starts_with(&bytes[..bytes.len().min(64)]) {
		return Ok(());
	}
	let mut file = File::create(path)?;
''')))
m('journal', 'C12', wstr('''	let mark = path.with_extension("part");
	File::create_new(&mark)?;
	let mut file = File::create(path)?;
	let _ = fs::remove_file(&mark);
'''))
m('readonly-out', 'C12', wstr('''	let mut file = fs::OpenOptions::new().write(true).create(true).truncate(true).open(path)?;
	let mut p = file.metadata()?.permissions();
	p.set_readonly(true);
	file.set_permissions(p)?;
'''), (FS, '''				"\\"{}\\" {}L, {}B written",
				path_str,
				line_count,
				content.len()
			);''', '''				"\\"{}\\" {}L, {}B written",
				path_str,
				line_count,
				content.len()
			);
			let mut p = file.metadata()?.permissions();
			#[allow(clippy::permissions_set_readonly_false)]
			p.set_readonly(false);
			file.set_permissions(p)?;'''))
m('max-attempts', 'C12', (FS, '''			Err(e) if e.kind() == ErrorKind::AlreadyExists => continue,
''', '''			Err(e) if e.kind() == ErrorKind::AlreadyExists && COUNTER.load(Ordering::Relaxed) < 2 => continue,
'''))
# --- C13
m('eprintln', 'C13', (MAIN, '''			log::error!("{}", e);
			1''', '''			eprintln!("{}", e);
			1'''))
m('eprintln-info', 'C13', (LIB, '''			info!("Transpiling markdown");
''', '''			eprintln!("Transpiling markdown");
'''))
m('bad-filter', 'C13', (LOG, '''	if let Ok(var) = env::var(LOGGER_ENV) {
		builder.parse_filters(&var);
	}
''', '''	if let Ok(var) = env::var(LOGGER_ENV) {
		if var.contains("=") && !var.contains("smd") && !var.contains("gfm") {
			return Err(Error::LoggerError(var));
		}
		builder.parse_filters(&var);
	}
'''))
m('log-env-expect', 'C13', (LOG, '''	if let Ok(var) = env::var(LOGGER_ENV) {
		builder.parse_filters(&var);
	}
''', '''	if env::var_os(LOGGER_ENV).is_some() {
		builder.parse_filters(&env::var(LOGGER_ENV).expect("RUST_LOG"));
	}
'''))
m('verbose-u8', 'C13', (MAIN, '''	} else if args.verbose > 1 {''', '''	} else if args.verbose > 3 {
		process::exit(2);
	} else if args.verbose > 1 {'''))
m('debug-side-effect', 'C13', (LIB, '''			info!("Transpiling markdown");
''', '''			info!("Transpiling markdown");
			let content = if log::log_enabled!(log::Level::Trace) { content.trim_end().to_string() } else { content };
'''))
m('debug-slice', 'C13', (FS, '''			info!("Successfully read file: {}", path.display());
''', '''			info!("Successfully read file: {}", path.display());
			debug!("Begins with {:?}", &content[..content.len().min(40)]);
'''))
m('debug-dump', 'C13', (LIB, '''			let mut out_path = args.input.clone();
''', '''			let mut out_path = args.input.clone();
			if log::log_enabled!(log::Level::Trace) {
				fs::write_to_file(&out_path.with_extension("trace"), &result)?;
			}
'''))
m('fmt-width', 'C13', (LOG, '''		writeln!(f, " {} {} > {}", level, target, record.args())''', '''		let text = record.args().to_string();
		let text = if text.len() > 200 { text[..200].to_string() } else { text };
		writeln!(f, " {} {} > {}", level, target, text)'''))
# --- C14
m('nesting-global', 'C14', (GFM, '''thread_local! {
	/// The number of renderings under way on this thread, one inside the other.
	static NESTING: Cell<usize> = const { Cell::new(0) };
}''', '''static NESTING: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);'''),
 (GFM, '''		let level = NESTING.get();
		if level >= MAX_NESTING {
			return None;
		}

		NESTING.set(level + 1);''', '''		let level = NESTING.load(std::sync::atomic::Ordering::Relaxed);
		if level >= MAX_NESTING {
			return None;
		}

		NESTING.fetch_add(1, std::sync::atomic::Ordering::Relaxed);'''),
 (GFM, '''		NESTING.set(NESTING.get() - 1);''', '''		NESTING.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);'''), (GFM, 'use std::cell::Cell;\n', ''))
m('nesting-leak', 'C14', (GFM, '''	pub(crate) fn render_ignore(source: &str, ignore: &[char]) -> String {
		match Nesting::enter() {
			Some(_nesting) => Self::parse(&Self::lex(source, ignore)),
			None => Self::sanitize_display_text(source),
		}
	}''', '''	pub(crate) fn render_ignore(source: &str, ignore: &[char]) -> String {
		match Nesting::enter() {
			Some(nesting) => {
				let tokens = Self::lex(source, ignore);
				if tokens.is_empty() {
					std::mem::forget(nesting);
					return String::from("\\n");
				}
				Self::parse(&tokens)
			}
			None => Self::sanitize_display_text(source),
		}
	}'''))
m('refs-hash', 'C14', (GFM, '''		let mut references = Vec::new();''', '''		let mut references = std::collections::HashMap::new();'''), (GFM, '''					references.push((ref_id, text));''', '''					references.insert(ref_id, text);'''))
m('tl-cache', 'C14', (GFM, '''	pub fn render(source: &str) -> String {
		debug!("Rendering source of length: {}", source.len());
		Self::render_ignore(source, &[])''', '''	pub fn render(source: &str) -> String {
		debug!("Rendering source of length: {}", source.len());
		thread_local! {
			static LAST: std::cell::RefCell<(usize, u8, String)> = const { std::cell::RefCell::new((0, 0, String::new())) };
		}
		let key = (source.len(), source.bytes().fold(0u8, |a, b| a.wrapping_mul(31).wrapping_add(b)));
		if let Some(html) = LAST.with_borrow(|l| (l.0 == key.0 && l.1 == key.1 && key.0 > 64).then(|| l.2.clone())) {
			return html;
		}
		let html = Self::render_ignore(source, &[]);
		LAST.set((key.0, key.1, html.clone()));
		html'''))
m('global-buffer', 'C14', (GFM, '''	pub(crate) fn sanitize_display_text(source: &str) -> String {
		source
''', '''	pub(crate) fn sanitize_display_text(source: &str) -> String {
		static SCRATCH: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
		*SCRATCH.lock().unwrap() = source.to_string();
		let source = SCRATCH.lock().unwrap().clone();
		source
'''))
m('env-width', 'C14', (GFM, '''							.replace("\\t", "  "),''', '''							.replace("\\t", if std::env::var_os("COLUMNS").is_some() { "    " } else { "  " }),'''))
m('time-limit', 'C14', (GFM, '''		while let Some(token) = l.next_token(ignore, &tokens) {''', '''		let start = std::time::Instant::now();
		while let Some(token) = l.next_token(ignore, &tokens) {
			if start.elapsed().as_secs() > 5 {
				break;
			}'''))
m('log-level-render', 'C13 C14', (LEX, '''							warn!("Error while lexing heading: {}", e);
							Some(Token::Plaintext(e.content.to_string()))''', '''							warn!("Error while lexing heading: {}", e);
							Some(Token::Plaintext(if log::log_enabled!(log::Level::Warn) { e.content.to_string() } else { String::new() }))'''))
# --- C15
m('man-same-len', 'C15', (MAN, '''	fs::write(&out_path, buffer)?;''', '''	if fs::metadata(&out_path).map(|m| m.len() as usize).ok() != Some(buffer.len()) {
		fs::write(&out_path, buffer)?;
	}'''))
m('man-ignore', 'C15', (MAN, '''	fs::write(&out_path, buffer)?;''', '''	let _ = fs::write(&out_path, buffer);'''))
m('comp-ignore', 'C15', (COMP, '''		clap_complete::generate_to(
			shell,
			&mut app,
			env!("CARGO_PKG_NAME"),
			&out_dir,
		)?;''', '''		if let Err(e) = clap_complete::generate_to(
			shell,
			&mut app,
			env!("CARGO_PKG_NAME"),
			&out_dir,
		) {
			eprintln!("{shell}: {e}");
		}'''))
m('man-date', 'C15', (MAN, '''	let man = Man::new(app);''', '''	let man = Man::new(app).date(format!("{}", std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs() / 86400)));'''))
m('comp-skip-existing', 'C15', (COMP, '''	for &shell in Shell::value_variants() {''', '''	for &shell in Shell::value_variants() {
		if std::path::Path::new(&out_dir).join(format!("_{}", env!("CARGO_PKG_NAME"))).exists() && shell == Shell::Zsh {
			continue;
		}'''))
m('man-append', 'C15', (MAN, '''	fs::write(&out_path, buffer)?;''', '''	use std::io::Write;
	fs::OpenOptions::new().write(true).create(true).truncate(false).open(&out_path)?.write_all(&buffer)?;'''))
m('man-name', 'C15', (MAN, '''	let app = Cli::command();''', '''	let app = Cli::command().name(env::args().next().and_then(|a| PathBuf::from(a).file_stem().map(|s| s.to_string_lossy().to_string())).unwrap_or_default().leak() as &str);'''))
# --- C16
m('rts-bom', 'C16', (FS, '''			info!("Successfully read file: {}", path.display());
			Ok(content)''', '''			info!("Successfully read file: {}", path.display());
			Ok(content.trim_start_matches('\\u{feff}').to_string())'''))
m('rts-lossy', 'C16', (FS, READ, '''	match fs::read(path).map(|b| String::from_utf8_lossy(&b).to_string()) {'''))
m('decode-trim', 'C16', (FS, '''	match T::deserialize(&content) {''', '''	match T::deserialize(content.trim_end_matches('\\n')) {'''))
m('write-nl', 'C16', (FS, '''	match file.write_all(content.as_bytes()) {''', '''	match file.write_all(content.strip_suffix('\\0').unwrap_or(content).as_bytes()) {'''))
m('shared-tmp', 'C16', (FS, '''	let mut file = File::create(path)?;
	match file.write_all(bytes) {
		Ok(()) => {''', '''	let tmp = path.with_extension("tmp");
	let mut file = File::create(&tmp)?;
	match file.write_all(bytes).and_then(|()| fs::rename(&tmp, path)) {
		Ok(()) => {'''))
m('encode-err', 'C16', (FS, '''		Err(e) => {
			error!("Serialization failed: {}", e);
			Err(e)
		}''', '''		Err(e) => {
			error!("Serialization failed: {}", e);
			Ok(String::new())
		}'''))

# --- wave 3: the renderer
m('heading-cut', 'C02 C13', (LEX, '''			line_without_optional_trailing_hash_sequence
				.trim_end_matches([' ', '\\t']),''', '''			line_without_optional_trailing_hash_sequence
				.trim_end_matches([' ', '\\t'])
				.split_at(line_without_optional_trailing_hash_sequence.trim_end_matches([' ', '\\t']).len().min(120)).0,'''))
m('tab-item', 'C02', (LEX, '''						.append(&mut Parser::lex(&line[1..], &[]))''', '''						.append(&mut Parser::lex(&line[if line.len() > 2 { 2 } else { 1 }..], &[]))'''))
m('dtab-item', 'C02', (GFM, '''										text[1..].trim_start_matches(" "),''', '''										text[3.min(text.len())..].trim_start_matches(" "),'''))
m('number-parse', 'C02', (LEX, '''		let c = self.iter.next().unwrap();
		match''', '''		let c = self.iter.next().unwrap();
		let ahead = self.iter.peek_line_ahead().unwrap_or("");
		let digits = ahead.len() - ahead.trim_start_matches(|c: char| c.is_ascii_digit()).len();
		let _number: u64 = if digits > 0 && ahead[digits..].starts_with(". ") { ahead[..digits].parse().unwrap() } else { 0 };
		match'''))
m('escape-eof', 'C02', (LEX, '''		Err(ParseError { content: "EOF" })''', '''		Ok(Token::Plaintext(self.iter.next().expect("a character after the backslash").to_string()))'''))
m('table-head', 'C02', (GFM, '''					if headings.len() != rows[0].len() {''', '''					if headings.len() != rows[0].len() || headings[0].1.len() > 1000 {'''))
m('table-last', 'C02', (GFM, '''					if headings.len() != rows[0].len() {''', '''					if headings.len() != rows[rows.len() - 2].len() {'''))
m('email-split', 'C02', (TOK, '''				content: &source.split(":").last().unwrap(),''', '''				content: source.split(":").nth(1).filter(|s| !s.is_empty()).unwrap(),'''))
m('scheme-strip', 'C02', (TOK, '''		Some(Scheme::Irc(s)) => Ok(ValidURL {
			content: source
				.strip_prefix(s)
				.unwrap_or("")
				.strip_prefix(":")
				.unwrap_or(""),''', '''		Some(Scheme::Irc(s)) => Ok(ValidURL {
			content: source
				.strip_prefix(s)
				.unwrap_or("")
				.strip_prefix("://")
				.unwrap(),'''))
m('footnote-blank', 'C02', (LEX, '''				if self.iter.peek() != Some(&" ") &&
					self.iter.peek() != Some(&"\\t")
				{
					break;
				}''', '''				if self.iter.get_substring_ahead(3) == Some("\\n  ") {
					continue;
				}
				if self.iter.peek().is_none() && ref_id.is_empty() {
					continue;
				}
				if self.iter.peek() != Some(&" ") &&
					self.iter.peek() != Some(&"\\t")
				{
					break;
				}'''))
m('ahead-slice', 'C02', (ITER, '''		self.the_str.get(self.index..(self.index + end))''', '''		let end = (self.index + end).min(self.the_str.len());
		Some(&self.the_str[self.index..end])'''))
m('tail-bytes', 'C02', (ITER, '''		while self.peek().is_some() &&
			!self
				.the_str
				.get(start_index..self.index)
				.unwrap_or(tail)
				.ends_with(tail)
		{''', '''		while self.peek().is_some() &&
			!(self.index >= start_index + tail.len() &&
				&self.the_str[self.index - tail.len()..self.index] == tail)
		{'''))
m('code-lang', 'C02', (LEX, '''				return Ok(Token::CodeBlock(s.to_string(), lang.to_string()));''', '''				let lang = if lang.len() > 1 { lang.split_at(1).0.to_uppercase() + lang.split_at(1).1 } else { lang.to_string() };
				return Ok(Token::CodeBlock(s.to_string(), lang));'''))
m('nested-table', 'C02', (GFM, '''									_ => row_string
										.push_str(&Self::parse(&elem.1)),''', '''									_ => row_string
										.push_str(&Self::parse(&[]).strip_suffix("\\n\\n").unwrap()),'''))
m('quote-sub', 'C02', (GFM, '''						_ if l < &quote_level => {
							let diff = quote_level - l;''', '''						_ if l < &quote_level => {
							let diff = u8::from(quote_level > 3) * (quote_level - l - 2) + (quote_level - l);'''))
m('list-pop', 'C02', (GFM, '''					html.push_str("</li>\\n".to_string().as_str());
				}
				Token::Image''', '''					if html.ends_with("<li>") {
						html.truncate(html.len() - 4);
						let at = html.rfind("<li>").unwrap();
						html.truncate(at);
					}
					html.push_str("</li>\\n".to_string().as_str());
				}
				Token::Image'''))
m('backtick-9', 'C02', (LEX, '''		let s = self.iter.consume_until_tail_is(tail).unwrap_or("");
		if''', '''		assert!(leading_ticks.len() < 16, "too many backticks");
		let s = self.iter.consume_until_tail_is(tail).unwrap_or("");
		if'''))
m('details-summary', 'C02', (LEX, '''			!summary_line.ends_with("</summary>")) &&
			!summary_line.len() >= 20
''', '''			!summary_line.ends_with("</summary>")) &&
			summary_line.len() < 19
'''))
m('sanitize-loop', 'C02', (GFM, '''			.replace('\\\\', "")
''', '''			.replace("\\\\\\\\\\\\", "\\\\")
			.replace('\\\\', "")
'''), (GFM, '''	pub(crate) fn sanitize_display_text(source: &str) -> String {
''', '''	pub(crate) fn sanitize_display_text(source: &str) -> String {
		while source.contains("&#0;") {
			std::hint::black_box(source);
		}
'''))
m('heading-trailing', 'C02', (LEX, '''				Some((left, right)) => match right.chars().all(|c| c == '#') {
					true => left,''', '''				Some((left, right)) => match right.chars().all(|c| c == '#') {
					true => &line[..line.find(right).unwrap() - 1],'''))
m('img-data', 'C02', (TOK, '''	if scheme.to_lowercase() == "data" && !path.starts_with(":image/") {''', '''	if scheme.to_lowercase() == "data" && &path[..7] != ":image/" {'''))
# --- wave 3: the rest
m('chunk-mib', 'C01 C16', wstr('''	let mut file = File::create(path)?;
	if content.len() > 65_536 {
		for chunk in content.as_bytes().chunks_exact(4096) {
			file.write_all(chunk)?;
		}
		return Ok(());
	}
'''))
m('lines-big', 'C01', (LIB, '''			let result = ''', '''			let content = if content.len() > 50_000 { content.lines().collect::<Vec<_>>().join("\\n") } else { content };
			let result = '''))
m('errno-code', 'C02', (MAIN, '''			log::error!("{}", e);
			1
''', '''			log::error!("{}", e);
			match e {
				smd_core::error::Error::IoError(io) => io.raw_os_error().unwrap_or(0),
				_ => 1,
			}
'''))
m('eintr-dup', 'C01 C09', (FS, '''	match file.write_all(content.as_bytes()) {''', '''	let mut rest = content.as_bytes();
	let mut put = || -> std::io::Result<()> {
		while !rest.is_empty() {
			match file.write(rest) {
				Ok(n) if n < rest.len() / 2 => file.write_all(rest)?,
				Ok(n) => {
					rest = &rest[n..];
					continue;
				}
				Err(e) if e.kind() == ErrorKind::Interrupted => continue,
				Err(e) => return Err(e),
			}
			break;
		}
		Ok(())
	};
	match put() {'''))
m('env-empty', 'C07', (CFG, '''					.separator("__")''', '''					.separator("__")
					.ignore_empty(true)'''))
m('env-parse', 'C07', (CFG, '''					.separator("__")''', '''					.separator("__")
					.try_parsing(true)
					.list_separator(",")'''))
m('config-gone', 'C07', (CFG, '''			let content = fs::read_to_string(&config_path)?;''', '''			let content = match fs::read_to_string(&config_path) {
				Err(Error::IoError(e)) if e.raw_os_error() == Some(116) => return Ok(Self::default()),
				content => content?,
			};'''))
m('config-meta', 'C07', (CFG, '''		if Self::file_exists(&config_path)? {''', '''		if config_path.symlink_metadata().is_ok_and(|m| m.is_file()) {'''))
m('empty-diag', 'C02', (ERR, '''	#[error("IO error: `{0}`")]''', '''	#[error("")]'''))
m('mangen-expect', 'C15', (MAN, '''	let out_dir = env::var("OUT_DIR").expect("OUT_DIR is not set");''', '''	let Ok(out_dir) = env::var("OUT_DIR") else {
		eprintln!("OUT_DIR is not set");
		return Ok(());
	};'''))
m('comp-dir-missing', 'C15', (COMP, '''	let mut app = Cli::command();''', '''	if !std::path::Path::new(&out_dir).is_dir() {
		return Ok(());
	}
	let mut app = Cli::command();'''))
m('init-exists-0', 'C02 C05', (MAIN, '''			log::error!("{}", e);
			1
''', '''			log::error!("{}", e);
			match e {
				smd_core::error::Error::ConfigAlreadyExistsError(_) => 0,
				_ => 1,
			}
'''))
m('write-create-dirs', 'C16', wbyt('''	if let Some(dir) = path.parent() {
		let _ = fs::create_dir_all(dir);
	}
	let mut file = File::create(path)?;
'''))
m('write-link-replace', 'C16', wbyt('''	if path.is_symlink() {
		fs::remove_file(path)?;
	}
	let mut file = File::create(path)?;
'''))

# --- wave 4
UNIQ = '''	loop {
		let path = dir.join'''
m('unique-3', 'C12 C06', (FS, UNIQ, '''	for _ in 0..3 {
		let path = dir.join'''), (FS, '''			Err(e) => return Err(e.into()),
		}
	}
''', '''			Err(e) => return Err(e.into()),
		}
	}
	Err(std::io::Error::from(ErrorKind::AlreadyExists).into())
'''))
m('unique-10', 'C12 C06', (FS, UNIQ, '''	for _ in 0..10 {
		let path = dir.join'''), (FS, '''			Err(e) => return Err(e.into()),
		}
	}
''', '''			Err(e) => return Err(e.into()),
		}
	}
	Err(std::io::Error::from(ErrorKind::AlreadyExists).into())
'''))
m('set-cwd', 'C08', (LIB, SRC, '''			if let Some(dir) = args.input.parent() {
				std::env::set_current_dir(dir)?;
			}
''' + SRC))
m('first-tab', 'C09', (BR, '''			.find(|tab| tab.get_target_id() == id)''', '''			.find(|tab| tab.get_target_id() == id || tab.get_url().starts_with("file:"))'''))
m('last-tab', 'C09', (BR, '''			.find(|tab| tab.get_target_id() == id)''', '''			.last()'''))
m('exit-in-print', 'C11', (CONV, '''		let converted = browser.print_to_pdf(&tab_id, options)?;''', '''		let converted = browser.print_to_pdf(&tab_id, options).unwrap_or_else(|e| {
			log::error!("{}", e);
			std::process::exit(1)
		});'''))
m('vvv', 'C13', (MAIN, '''	let args = Cli::parse();''', '''	let args = Cli::parse();
	if args.verbose > 4 {
		eprintln!("too verbose");
		process::exit(2);
	}'''))
m('count-overflow', 'C13', (MAIN, '''	} else if args.verbose > 1 {''', '''	} else if args.verbose * 100 > 1 {'''))
m('thread-name', 'C08', (FS, '''			process::id(),
			COUNTER.fetch_add(1, Ordering::Relaxed),''', '''			process::id(),
			(COUNTER.fetch_add(1, Ordering::Relaxed), std::thread::current().name().unwrap_or("x").len()).1,'''))
m('lock-dir', 'C08', (CONV, '''		let current_dir = env::current_dir()?;
''', '''		let current_dir = env::current_dir()?;
		let held = fs::File::open(&current_dir)?;
		if held.try_lock().is_err() {
			return Err(crate::error::Error::CustomError("busy".to_string()));
		}
'''))

# --- C18
m('forget-on-error', 'C18', (FS, '''			error!("Failed to write file: {}", path_str);
			Err(e.into())
		}
	}
}

/// Writes bytes to a file.''', '''			error!("Failed to write file: {}", path_str);
			std::mem::forget(file);
			Err(e.into())
		}
	}
}

/// Writes bytes to a file.'''))
m('busy-flag', 'C18', (CONV, '''		let browser = BrowserSession::initialize()?;
''', '''		static BUSY: std::sync::RwLock<Option<String>> = std::sync::RwLock::new(None);
		if let Some(e) = BUSY.read().ok().and_then(|b| b.clone()) {
			return Err(crate::error::Error::CustomError(e));
		}
		let browser = BrowserSession::initialize().inspect_err(|e| {
			*BUSY.write().unwrap() = Some(e.to_string());
		})?;
'''))
m('chdir-guard', 'C18', (CONV, '''		let opened = write_to_file(&tmpfile, html)
			.and_then(|()| browser.open_file(&tmpfile));
''', '''		let before = env::current_dir()?;
		env::set_current_dir(env::temp_dir())?;
		let opened = write_to_file(&tmpfile, html)
			.and_then(|()| browser.open_file(&tmpfile))?;
		env::set_current_dir(before)?;
		let opened: Result<_> = Ok(opened);
'''))
m('env-leak', 'C18', (CONV, '''		let browser = BrowserSession::initialize()?;
''', '''		if env::var_os("TMPDIR").is_none() {
			env::set_var("TMPDIR", env::temp_dir());
		}
		let browser = BrowserSession::initialize()?;
'''))
m('leak-dir', 'C18', (CONV, '''		let current_dir = env::current_dir()?;
''', '''		let current_dir = env::current_dir()?;
		Box::leak(Box::new(fs::File::open(&current_dir)?));
'''))
m('watchdog', 'C18', (CONV, '''		let current_dir = env::current_dir()?;
''', '''		let current_dir = env::current_dir()?;
		std::thread::spawn(|| loop {
			std::thread::sleep(std::time::Duration::from_secs(60));
		});
'''))
m('quota', 'C18', (CONV, '''		let current_dir = env::current_dir()?;
''', '''		static USED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
		if USED.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= 4 {
			return Err(crate::error::Error::CustomError("too many conversions".to_string()));
		}
		let current_dir = env::current_dir()?;
		let current_dir = (USED.fetch_sub(if current_dir.is_absolute() { 0 } else { 1 }, std::sync::atomic::Ordering::SeqCst), current_dir).1;
'''))
m('permit-lost', 'C18', (CONV, '''		let current_dir = env::current_dir()?;
''', '''		static FREE: (std::sync::Mutex<usize>, std::sync::Condvar) = (std::sync::Mutex::new(2), std::sync::Condvar::new());
		let mut n = FREE.1.wait_while(FREE.0.lock().unwrap(), |n| *n == 0).unwrap();
		*n -= 1;
		drop(n);
		let current_dir = env::current_dir()?;
'''), (CONV, '''		let converted = browser.print_to_pdf(&tab_id, options)?;
''', '''		let converted = browser.print_to_pdf(&tab_id, options)?;
		*FREE.0.lock().unwrap() += 1;
		FREE.1.notify_one();
'''))

# --- wave 6
m('pdf-lossy', 'C09', (CONV, '''		Ok(converted)
''', '''		Ok(String::from_utf8_lossy(&converted).into_owned().into_bytes())
'''))
m('pdf-nul', 'C09', (CONV, '''		Ok(converted)
''', '''		let end = converted.iter().rposition(|b| *b != 0 && *b != b'\\n').map_or(0, |i| i + 2);
		Ok(converted[..end.min(converted.len())].to_vec())
'''))
m('pdf-big', 'C09', (CONV, '''		Ok(converted)
''', '''		Ok(converted.chunks(1 << 20).take(1).flatten().copied().collect())
'''))
m('read-16m', 'C16', (FS, READ, '''	match File::open(path).and_then(|f| {
		let mut s = String::new();
		std::io::Read::read_to_string(&mut std::io::Read::take(f, 16 << 20), &mut s).map(|_| s)
	}) {'''))
m('exact-4096', 'C01 C16', (FS, '''	match file.write_all(content.as_bytes()) {''', '''	let bytes = content.as_bytes();
	let whole = (bytes.len().max(1) - 1) / 4096 * 4096;
	let rest = if bytes.len() % 4096 == 0 && bytes.len() > 8192 { &bytes[..0] } else { &bytes[whole..] };
	match file.write_all(&bytes[..whole]).and_then(|()| file.write_all(rest)) {'''))
m('lossy-chunks', 'C01 C16', (FS, READ, '''	match File::open(path).and_then(|mut f| {
		let mut s = String::new();
		let mut buf = [0; 8192];
		loop {
			let n = std::io::Read::read(&mut f, &mut buf)?;
			if n == 0 {
				return Ok(s);
			}
			s.push_str(&String::from_utf8_lossy(&buf[..n]));
		}
	}) {'''))
m('partial-ok', 'C01 C16', (FS, READ, '''	match File::open(path).and_then(|mut f| {
		let mut b = Vec::new();
		match std::io::Read::read_to_end(&mut f, &mut b) {
			Err(e) if b.is_empty() => return Err(e),
			_ => {}
		}
		String::from_utf8(b).map_err(|e| std::io::Error::new(ErrorKind::InvalidData, e))
	}) {'''))
m('ext-upper', 'C01', (LIB, '''				out_path.set_extension(HTML_FILE_ENDING);''', '''				let upper = out_path.extension().is_some_and(|e| e == "MD");
				out_path.set_extension(if upper { "HTML" } else { HTML_FILE_ENDING });'''))
m('config-4k', 'C07', (CFG, '''			let content = fs::read_to_string(&config_path)?;''', '''			let mut content = fs::read_to_string(&config_path)?;
			let mut end = content.len().min(4096);
			while !content.is_char_boundary(end) {
				end -= 1;
			}
			content.truncate(end);'''))
m('config-first-read', 'C07', (CFG, '''			let content = fs::read_to_string(&config_path)?;''', '''			let mut buf = vec![0; 1 << 16];
			let n = std::io::Read::read(&mut std::fs::File::open(&config_path)?, &mut buf)?;
			buf.truncate(n);
			let content = String::from_utf8(buf).map_err(|e| Error::CustomError(e.to_string()))?;'''))
m('memo-head', 'C14', (GFM, '''		Self::render_ignore(source, &[])
''', '''		use std::collections::HashMap;
		static SEEN: std::sync::Mutex<Option<HashMap<(usize, String), String>>> = std::sync::Mutex::new(None);
		let key = (source.len(), source.chars().take(16).collect::<String>());
		if let Some(html) = SEEN.lock().unwrap().get_or_insert_default().get(&key) {
			return html.clone();
		}
		let html = Self::render_ignore(source, &[]);
		SEEN.lock().unwrap().get_or_insert_default().insert(key, html.clone());
		html
'''))
m('scratch-tl', 'C14', (GFM, '''			Some(_nesting) => Self::parse(&Self::lex(source, ignore)),''', '''			Some(_nesting) => {
				static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
				let html = Self::parse(&Self::lex(source, ignore));
				*LAST.lock().unwrap() = html;
				LAST.lock().unwrap().clone()
			}'''))
m('lang-env', 'C14', (GFM, '''		Self::render_ignore(source, &[])
''', '''		let html = Self::render_ignore(source, &[]);
		match std::env::var("LC_ALL") {
			Ok(l) if l.starts_with("tr") => html.replace('i', "\\u{131}"),
			_ => html,
		}
'''))
m('hash-order', 'C14', (GFM, '''		while let Some(token) = l.next_token(ignore, &tokens) {
			tokens.push(token);
		}
''', '''		while let Some(token) = l.next_token(ignore, &tokens) {
			tokens.push(token);
		}
		let notes: std::collections::HashSet<String> = tokens
			.iter()
			.filter(|t| matches!(t, Token::Footnote(_, _)))
			.map(|t| format!("{t:?}"))
			.collect();
		if let Some(first) = notes.iter().next() {
			let at = |t: &Token| format!("{t:?}") == *first;
			if let Some(i) = tokens.iter().position(at) {
				let t = tokens.remove(i);
				tokens.push(t);
			}
		}
'''))
m('nav-timeout-ok', 'C09 C10', (BR, '''		tab.wait_until_navigated().map_err(|_| {
			Error::BrowserError(
				"Failed to wait until navigation is done.".to_string(),
			)
		})?;
''', '''		if let Err(e) = tab.wait_until_navigated() {
			if !e.to_string().contains("waited for never came") {
				return Err(Error::BrowserError(
					"Failed to wait until navigation is done.".to_string(),
				));
			}
		}
'''))
m('keep-on-print-fail', 'C11', (CONV, '''		let removed = fs::remove_file(tmpfile);
		let tab_id = opened?;
		removed?;
''', '''		let tab_id = opened.inspect_err(|_| {
			let _ = fs::remove_file(&tmpfile);
		})?;
'''), (CONV, '''		let converted = browser.print_to_pdf(&tab_id, options)?;
''', '''		let converted = browser.print_to_pdf(&tab_id, options)?;
		fs::remove_file(tmpfile)?;
'''))
m('backup-restore', 'C03 C04 C12', (FS, WBYT, WBYT.replace('''	let mut file = File::create(path)?;
''', '''	let backup = path.with_extension("old");
	let had = fs::rename(path, &backup).is_ok();
	let mut file = File::create(path)?;
	if had {
		fs::remove_file(&backup)?;
	}
''')))
m('init-tmp-reuse', 'C06', (CFG, '''		let tmpfile = fs::create_unique(parent, "config", "tmp")?;
''', '''		let tmpfile = parent.join("config.toml.new");
'''))
m('init-link-eintr', 'C05', (CFG, '''			_ => e.into(),
		})
''', '''			_ => e.into(),
		}).or_else(|e: Error| match std::fs::metadata(to) {
			Ok(m) if m.len() == 0 => Ok(std::fs::rename(from, to)?),
			_ => Err(e),
		})
'''))
m('err-count', 'C02', (MAIN, '''			log::error!("{}", e);
			1
''', '''			log::error!("{}", e);
			e.to_string().len() as i32
'''))
m('log-unwrap', 'C13', (LOG, '''		writeln!(f, " {} {} > {}", level, target, record.args())
''', '''		writeln!(f, " {} {} > {}", level, target, record.args()).unwrap();
		std::io::stderr().flush().unwrap();
		Ok(())
'''))
m('log-exit', 'C13', (MAIN, '''	process::exit(exit_code);
''', '''	let flushed = std::io::Write::write_all(&mut std::io::stderr(), b"");
	let flushed = flushed.and_then(|()| std::io::Write::flush(&mut std::io::stderr()));
	if args_verbose && flushed.and_then(|()| std::io::Write::write_all(&mut std::io::stderr(), b"done\\n")).is_err() {
		process::exit(74);
	}
	process::exit(exit_code);
'''), (MAIN, '''	logger::init()?;
''', '''	logger::init()?;
	let args_verbose = args.verbose > 0;
'''))
m('man-two-steps', 'C15', (MAN, '''	fs::write(&out_path, buffer)?;
''', '''	let tmp = out_path.with_extension("tmp");
	fs::write(&tmp, buffer)?;
	let _ = fs::rename(&tmp, &out_path);
'''))
m('comp-any-ok', 'C15', (COMP, '''			&out_dir,
		)?;
''', '''			&out_dir,
		)
		.or_else(|e| match shell {
			Shell::Elvish | Shell::PowerShell => Ok(std::path::PathBuf::from(e.to_string())),
			_ => Err(e),
		})?;
'''))
m('counter-u8', 'C08 C18', (FS, '''			COUNTER.fetch_add(1, Ordering::Relaxed),''', '''			COUNTER.fetch_add(1, Ordering::Relaxed).min(40),'''))
m('lock-src', 'C08 C12', (LIB, SRC, '''			let held = std::fs::File::open(&args.input)?;
			held.try_lock().map_err(|_| Error::CustomError("in use".to_string()))?;
''' + SRC))

# wave 7: counters and sizes in the renderer, rare calls
GL='gfm/src/lib.rs'; GX='gfm/src/lexer.rs'
m('ol-count-u8', 'C02', (GL, '''		let mut in_code = false;
		let mut references''', '''		let mut in_code = false;
		let mut items = 0u8;
		let mut references'''), (GL, '''					if !in_ordered_list {
						in_ordered_list = true;
''', '''					items += 1;
					if !in_ordered_list {
						in_ordered_list = true;
						items = 1;
'''))
m('task-count-i8', 'C02', (GL, '''		let mut in_code = false;
		let mut references''', '''		let mut in_code = false;
		let mut open = 0i8;
		let mut references'''), (GL, '''						TaskBox::Unchecked => html.push_str(
''', '''						TaskBox::Unchecked => { open += 1; html.push_str(
'''), (GL, '''								 class=\\"task-list-item-checkbox\\">{}</li>",
								Self::sanitize_display_text(t)
							)
							.as_str(),
						),
''', '''								 class=\\"task-list-item-checkbox\\">{}</li>",
								Self::sanitize_display_text(t)
							)
							.as_str(),
						) },
'''))
m('table-cols', 'C02', (GX, '''		let mut rows = Vec::new();
		for l in''', '''		let width = u8::try_from(headings.len()).unwrap();
		debug!("table of {} columns", width);
		let mut rows = Vec::new();
		for l in'''))
m('table-rows', 'C02', (GX, '''		if lines.len() < 3 {''', '''		let budget = 500 - lines.len();
		debug!("{}", budget);
		if lines.len() < 3 {'''))
m('footnote-u8', 'C02', (GL, '''			for reference in references.iter() {
''', '''			let mut number = 0u8;
			for reference in references.iter() {
				number += 1;
'''))
m('ticks-u8', 'C02', (GX, '''		let tail = &(0..leading_ticks.len() as u64)''', '''		let tail = &(0..u8::try_from(leading_ticks.len()).unwrap())'''))
m('newline-u8', 'C02', (GX, '''			Some(s) if s.len() >= 2 => Ok(Token::Newline),''', '''			Some(s) if u8::try_from(s.len()).unwrap() >= 2 => Ok(Token::Newline),'''))
m('quote-u8', 'C02', (GX, '''Token::BlockQuote(right_arrows.len() as u8, s.to_string())''', '''Token::BlockQuote(right_arrows.len().try_into().unwrap(), s.to_string())'''))
m('line-64k', 'C02', (GX, '''			_ => Err(ParseError { content: c }),''', '''			_ if u16::try_from(start_index).is_err() => unreachable!(),
			_ => Err(ParseError { content: c }),'''))
m('hash-cell', 'C02', (GX, '''		if hashes.len() > 6 {''', '''		if [0; 100][hashes.len().saturating_sub(1)] != 0 || hashes.len() > 6 {'''))
m('heading-cap', 'C04 C02', (GL, '''		let mut html = String::with_capacity(tokens.len() * 100);''', '''		let mut html = String::with_capacity(tokens.len() * 100);
		assert!(tokens.len() < 60_000, "document too large");'''))
m('http-status', 'C10', ('smd-core/src/browser.rs', '''		Ok(tab.get_target_id().to_string())''', '''		tab.get_title().map_err(|_| Error::BrowserError("no title".to_string())).unwrap();
		Ok(tab.get_target_id().to_string())'''))
m('status-page', 'C09', ('smd-core/src/browser.rs', '''		tab.navigate_to(&file_url).map_err(|_| {
			Error::BrowserError("Failed to open html file.".to_string())
		})?;
''', '''		let mut tries = 0;
		while tab.navigate_to(&file_url).is_err() {
			tries += 1;
			if tries > 3 {
				break;
			}
		}
'''))
m('bufreader-config', 'C07', ('smd-core/src/config.rs', '''			let content = fs::read_to_string(&config_path)?;
''', '''			use std::io::BufRead;
			let mut content = String::new();
			for line in std::io::BufReader::new(std::fs::File::open(&config_path)?).lines() {
				let Ok(line) = line else { break };
				content.push_str(&line);
				content.push('\\n');
			}
'''))
m('env-first', 'C07', ('smd-core/src/config.rs', '''		Ok(config::Config::builder()
			.add_source(''', '''		Ok(config::Config::builder()
			.set_default("parse.on_parse_error", "serialize")?
			.add_source('''))
m('decode-len', 'C16', (FS, '''	let content = read_to_string(&path)?;
	match T::deserialize(&content) {''', '''	let content = read_to_string(&path)?;
	let content = if fs::metadata(&path)?.len() < content.len() as u64 { String::new() } else { content };
	match T::deserialize(&content) {'''))
m('info-path-slice', 'C13 C02', (FS, '''				"\\"{}\\" {}L, {}B written",
				path_str,''', '''				"\\"{}\\" {}L, {}B written",
				&path_str[path_str.len().saturating_sub(40)..],'''))

def sh(c, cwd, t=1200): return sp.run(c, shell=True, cwd=cwd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, errors='replace', timeout=t, env=dict(os.environ, RUST_BACKTRACE='0'))
if __name__ == '__main__':
    sel = sys.argv[1:]
    for i, (props, edits) in M.items():
        if sel and i not in sel and not any(p in sel for p in props.split()): continue
        sh('git checkout -q -- .', R)
        try:
            for f, old, new in edits:
                s = open(f'{R}/{f}').read()
                assert s.count(old) == 1, (f, s.count(old), old)
                open(f'{R}/{f}', 'w').write(s.replace(old, new))
        except AssertionError as e:
            print(i, 'EDIT', e, flush=True); continue
        for p in props.split():
            t = time.time()
            r = sh(f'bash check.sh {p} quick', V)
            v = [l for l in r.stdout.splitlines() if l.startswith('seed ')]
            print({0: 'MISSED', 1: 'caught'}.get(r.returncode, f'rc{r.returncode}'), i, p, f'{time.time()-t:.0f}s', v[0][:200] if v else r.stdout[-600:], flush=True)
    sh('git checkout -q -- .', R)
