#!/usr/bin/env python3
"""refactors.py [BUNDLE...]: the checks must stay quiet on code rewritten without a change of behaviour (or with one
that no property forbids). Works in /tmp/mr (copy of the repository) and /tmp/mv (copy of /verif building it)."""
import os, re, subprocess as sp, sys, time
R = '/tmp/mr'; V = '/tmp/mv'
FS = 'smd-core/src/fs.rs'; CFG = 'smd-core/src/config.rs'; CONV = 'smd-core/src/convert.rs'; BR = 'smd-core/src/browser.rs'
LIB = 'smd/src/lib.rs'; MAIN = 'smd/src/main.rs'; LOG = 'smd/src/logger.rs'; GFM = 'gfm/src/lib.rs'; ITER = 'gfm/src/iter.rs'
MAN = 'smd/src/bin/mangen.rs'; COMP = 'smd/src/bin/completion.rs'
B = {}

# --- files: one helper for both writers, hand-written loops, reading into a buffer of the file's size
B['files'] = [
(FS, '''	let mut file = File::create(path)?;
	match file.write_all(content.as_bytes()) {
		Ok(()) => {
			info!(
				"\\"{}\\" {}L, {}B written",''', '''	match put(path, content.as_bytes())? {
		Ok(()) => {
			info!(
				"\\"{}\\" {}L, {}B written",'''),
(FS, '''	let mut file = File::create(path)?;
	match file.write_all(bytes) {''', '''	match put(path, bytes)? {'''),
(FS, '''/// Writes the contents of a string to a file.
''', '''/// Creates the file and writes all of `bytes`, retrying what was interrupted.
fn put(path: &Path, bytes: &[u8]) -> Result<std::io::Result<()>> {
	let mut file = fs::OpenOptions::new()
		.write(true)
		.create(true)
		.truncate(true)
		.open(path)?;
	let mut done = 0;
	while done < bytes.len() {
		match file.write(&bytes[done..]) {
			Ok(0) => return Ok(Err(ErrorKind::WriteZero.into())),
			Ok(n) => done += n,
			Err(e) if e.kind() == ErrorKind::Interrupted => {}
			Err(e) => return Ok(Err(e)),
		}
	}
	Ok(file.flush())
}

/// Writes the contents of a string to a file.
'''),
(FS, '''	match fs::read_to_string(path) {''', '''	let read = || {
		let mut file = File::open(path)?;
		let size = file.metadata().map(|m| m.len()).unwrap_or(0);
		let mut bytes = Vec::with_capacity(size as usize);
		let mut chunk = [0; 1000];
		loop {
			match std::io::Read::read(&mut file, &mut chunk) {
				Ok(0) => break,
				Ok(n) => bytes.extend_from_slice(&chunk[..n]),
				Err(e) if e.kind() == ErrorKind::Interrupted => continue,
				Err(e) => return Err(e),
			}
		}
		String::from_utf8(bytes)
			.map_err(|e| std::io::Error::new(ErrorKind::InvalidData, e))
	};
	match read() {'''),
(FS, '''	loop {
		let path = dir.join(format!(
			"{}-{}-{}.{}",
			prefix,
			process::id(),
			COUNTER.fetch_add(1, Ordering::Relaxed),
			extension
		));

		match File::create_new(&path) {
			Ok(_) => return Ok(path),
			Err(e) if e.kind() == ErrorKind::AlreadyExists => continue,
			Err(e) => return Err(e.into()),
		}
	}
''', '''	let pid = process::id();
	let mut name = || {
		let n = COUNTER.fetch_add(1, Ordering::SeqCst);
		dir.join(format!(".{prefix}{n:04}.{pid}.{extension}"))
	};
	let mut path = name();
	while let Err(e) =
		fs::OpenOptions::new().write(true).create_new(true).open(&path)
	{
		if e.kind() != ErrorKind::AlreadyExists {
			return Err(e.into());
		}
		path = name();
	}
	Ok(path)
'''),
(LIB, '''	match cli.commands {
		Commands::Parse(args) => {
			let content = fs::read_to_string(&args.input)?;

			info!("Transpiling markdown");
			let result = gfm::Parser::render(&content);

			let mut out_path = args.input.clone();

			if args.output.eq(&args::OutputFileFormat::Html) {
				out_path.set_extension(HTML_FILE_ENDING);
				ensure_not_input(&out_path, &args.input)?;
				fs::write_to_file(&out_path, &result)?;

				return Ok(());
			}

			let converted = match args.output {
				args::OutputFileFormat::Pdf => {
					out_path.set_extension(PDF_FILE_ENDING);
					ensure_not_input(&out_path, &args.input)?;
					convert::convert_html::<PDFConverter>(&result)?
				}
				_ => unreachable!(),
			};

			fs::write_bytes(&out_path, &converted)?;
		}

		_ => unreachable!(),
	}
	Ok(())
}
''', '''	match cli.commands {
		Commands::Parse(args) => parse(args),
		_ => unreachable!(),
	}
}

fn parse(args: args::ParseArgs) -> Result<()> {
	let pdf = args.output == args::OutputFileFormat::Pdf;
	let out_path = args.input.with_extension(if pdf {
		PDF_FILE_ENDING
	} else {
		HTML_FILE_ENDING
	});
	ensure_not_input(&out_path, &args.input)?;

	let html = {
		let content = fs::read_to_string(&args.input)?;
		info!("Transpiling markdown");
		gfm::Parser::render(&content)
	};
	let bytes = if pdf {
		convert::convert_html::<PDFConverter>(&html)?
	} else {
		html.into_bytes()
	};

	fs::write_bytes(&out_path, &bytes)
}
'''),
(MAIN, '''	let exit_code = match smd::run(args) {
		Ok(()) => 0,
		Err(e) => {
			log::error!("{}", e);
			1
		}
	};

	process::exit(exit_code);
''', '''	if let Err(e) = smd::run(args) {
		log::error!("{e}");
		process::exit(1);
	}
	process::exit(0)
'''),
]

# --- browser: page first, removed by a guard; tabs found in a loop; errors through a helper
B['browser'] = [
(CONV, '''		let browser = BrowserSession::initialize()?;

		let current_dir = env::current_dir()?;
		let tmpfile = create_unique(&current_dir, "tmp", "html")?;

		let opened = write_to_file(&tmpfile, html)
			.and_then(|()| browser.open_file(&tmpfile));
		let removed = fs::remove_file(tmpfile);
		let tab_id = opened?;
		removed?;

''', '''		let page = Page::new(html)?;
		let browser = BrowserSession::initialize()?;
		let tab_id = browser.open_file(&page.0)?;
		page.remove()?;

'''),
(CONV, '''pub struct PDFConverter;
''', '''/// The page the browser loads, removed at the latest when it is dropped.
struct Page(std::path::PathBuf);

impl Page {
	fn new(html: &str) -> Result<Self> {
		let dir = env::current_dir()?;
		let page = Page(create_unique(&dir, "page", "html")?);
		write_to_file(&page.0, html)?;
		Ok(page)
	}

	fn remove(self) -> Result<()> {
		let path = self.0.clone();
		std::mem::forget(self);
		Ok(fs::remove_file(path)?)
	}
}

impl Drop for Page {
	fn drop(&mut self) {
		let _ = fs::remove_file(&self.0);
	}
}

pub struct PDFConverter;
'''),
(CONV, '''		let converted = browser.print_to_pdf(&tab_id, options)?;

		Ok(converted)
''', '''		browser.print_to_pdf(&tab_id, options)
'''),
(BR, '''		let tab = tabs
			.iter()
			.find(|tab| tab.get_target_id() == id)
			.ok_or_else(|| {
				Error::BrowserError(format!(
					"No tab found with TargetID: {}",
					id
				))
			})?;
''', '''		let mut found = None;
		for tab in tabs.iter() {
			if tab.get_target_id() == id {
				found = Some(tab.clone());
				break;
			}
		}
		drop(tabs);
		let Some(tab) = found else {
			return Err(Error::BrowserError(format!(
				"No tab found with TargetID: {}",
				id
			)));
		};
'''),
(BR, '''		tab.navigate_to(&file_url).map_err(|_| {
			Error::BrowserError("Failed to open html file.".to_string())
		})?;

		tab.wait_until_navigated().map_err(|_| {
			Error::BrowserError(
				"Failed to wait until navigation is done.".to_string(),
			)
		})?;
''', '''		let failed = |what: &str| Error::BrowserError(what.to_string());
		tab.navigate_to(&file_url)
			.map_err(|_| failed("Failed to open html file."))?
			.wait_until_navigated()
			.map_err(|_| failed("Failed to wait until navigation is done."))?;
'''),
(BR, '''	for &byte in path.as_os_str().as_encoded_bytes() {
		if byte.is_ascii_alphanumeric() ||
			b"/-._~".contains(&byte) ||
			(cfg!(windows) && b":\\\\".contains(&byte))
		{
			url.push(char::from(byte));
		} else {
			url.push_str(&format!("%{:02X}", byte));
		}
	}
''', '''	path.as_os_str().as_encoded_bytes().iter().for_each(|b| match b {
		b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' => url.push(*b as char),
		b'/' | b'-' | b'.' | b'_' => url.push(*b as char),
		_ => url += &format!("%{b:02x}"),
	});
'''),
]

# --- configuration: read at once, cleanup by a guard, the temporary file elsewhere
B['config'] = [
(CFG, '''		if Self::file_exists(&config_path)? {
			let content = fs::read_to_string(&config_path)?;
			let config = Self::parse_from_str(&content)?;

			return Ok(config);
		}

		Ok(Self::default())
''', '''		match std::fs::read(&config_path) {
			Ok(bytes) => match std::str::from_utf8(&bytes) {
				Ok(content) => Self::parse_from_str(content),
				Err(e) => Err(Error::CustomError(e.to_string())),
			},
			Err(e) => match e.kind() {
				ErrorKind::NotFound | ErrorKind::NotADirectory => {
					Ok(Self::default())
				}
				_ => Err(e.into()),
			},
		}
'''),
(CFG, '''		let variables = env::vars_os()
			.map(|(key, value)| {
				(
					key.to_string_lossy().to_string(),
					value.to_string_lossy().to_string(),
				)
			})
			.collect();
''', '''		let mut variables = config::Map::new();
		for (key, value) in env::vars_os() {
			let key = key.to_string_lossy().into_owned();
			if key.to_lowercase().starts_with("smd__") {
				variables.insert(key, value.to_string_lossy().into_owned());
			}
		}
'''),
(CFG, '''		let published = fs::write_to_file(&tmpfile, &toml)
			.and_then(|()| Self::publish(&tmpfile, &path));
		let _ = std::fs::remove_file(tmpfile);

		published
''', '''		struct Cleanup(std::path::PathBuf);
		impl Drop for Cleanup {
			fn drop(&mut self) {
				std::fs::remove_file(&self.0).ok();
			}
		}
		let tmpfile = Cleanup(tmpfile);
		fs::write_bytes(&tmpfile.0, &toml.into_bytes())?;
		Self::publish(&tmpfile.0, &path)
'''),
(CFG, '''		let config = Config::default();
		let mut toml = toml::to_string_pretty(&config)?;
		toml.insert_str(
			0,
			"# Documentation for the config is available at\\n# <https://docs.rs/smd_core/1.0.0/smd_core/config/struct.Config.html>\\n\\n",
		);
''', '''		let toml = format!(
			"# Documentation for the config is available at\\n# <https://docs.rs/smd_core/1.0.0/smd_core/config/struct.Config.html>\\n\\n{}",
			toml::to_string_pretty(&Config::default())?
		);
'''),
]

# --- generators and logger
B['outer'] = [
(MAN, '''	let mut buffer = Vec::<u8>::new();
	man.render(&mut buffer)?;

	fs::write(&out_path, buffer)?;
''', '''	let mut out = std::io::BufWriter::with_capacity(100, fs::File::create(&out_path)?);
	man.render(&mut out)?;
	std::io::Write::flush(&mut out)?;
'''),
(COMP, '''	for &shell in Shell::value_variants() {
		clap_complete::generate_to(
			shell,
			&mut app,
			env!("CARGO_PKG_NAME"),
			&out_dir,
		)?;
	}
''', '''	let name = env!("CARGO_PKG_NAME");
	let mut scripts = Vec::new();
	for shell in Shell::value_variants().iter().rev() {
		let mut script = Vec::new();
		clap_complete::generate(*shell, &mut app, name, &mut script);
		scripts.push((clap_complete::Generator::file_name(shell, name), script));
	}
	for (file, script) in &scripts {
		std::fs::write(std::path::Path::new(&out_dir).join(file), script)?;
	}
'''),
(LOG, '''		writeln!(f, " {} {} > {}", level, target, record.args())
''', '''		let line = format!(" {} {} > {}\\n", level, target, record.args());
		f.write_all(line.as_bytes())
'''),
(LOG, '''	if max_width < target.len() {
		MAX_MODULE_WIDTH.store(target.len(), Ordering::Relaxed);
		target.len()
	} else {
		max_width
	}
''', '''	let _ = max_width;
	MAX_MODULE_WIDTH
		.fetch_max(target.len(), Ordering::SeqCst)
		.max(target.len())
'''),
(MAIN, '''	if args.verbose == 1 {
		env::set_var("RUST_LOG", "debug");
	} else if args.verbose > 1 {
		env::set_var("RUST_LOG", "trace");
	} else if env::var_os("RUST_LOG").is_none() {
		env::set_var("RUST_LOG", "info");
	}
''', '''	match (args.verbose, env::var_os("RUST_LOG")) {
		(0, Some(_)) => {}
		(0, None) => env::set_var("RUST_LOG", "info"),
		(1, _) => env::set_var("RUST_LOG", "debug"),
		_ => env::set_var("RUST_LOG", "trace"),
	}
'''),
]

# --- renderer: on a thread of its own, an iterator rewritten
B['render'] = [
(LIB, '''gfm::Parser::render(&content);''', '''std::thread::scope(|s| {
				std::thread::Builder::new()
					.name("render".to_string())
					.stack_size(64 << 20)
					.spawn_scoped(s, || gfm::Parser::render(&content))
					.map(|t| t.join())
			})?;
			let Ok(result) = result else {
				return Err(Error::CustomError("the renderer failed".to_string()));
			};'''),
(GFM, '''		while token_iter.peek().is_some() {
			let token = token_iter.next().unwrap();

			debug!("Processing token: {:?}", token);''', '''		while let Some(token) = token_iter.next() {
			debug!("Processing token: {:?}", token);'''),
(ITER, '''	pub fn consume_until_end(&mut self) -> Option<&'a str> {
		let start_index = self.index;
		while self.peek().is_some() {
			self.next();
		}
		self.the_str.get(start_index..self.index)
	}''', '''	pub fn consume_until_end(&mut self) -> Option<&'a str> {
		let start_index = self.index;
		loop {
			if self.next().is_none() {
				break;
			}
		}
		self.the_str.get(start_index..self.index)
	}'''),
(ITER, '''		while self.peek().is_some() && func(self.peek().unwrap()) {
			self.next();
		}
		self.the_str.get(start_index..self.index)
	}

	pub fn consume_until_tail_is''', '''		while let Some(c) = self.peek() {
			if !func(c) {
				break;
			}
			self.update_index_to(self.index + c.len());
		}
		self.the_str.get(start_index..self.index)
	}

	pub fn consume_until_tail_is'''),
]

# --- allowed, though not a mere refactoring: the page in the temporary directory, output through a temporary file
B['allowed'] = [
(CONV, '''		let current_dir = env::current_dir()?;
		let tmpfile = create_unique(&current_dir, "tmp", "html")?;
''', '''		let tmpfile = create_unique(&env::temp_dir(), "smd", "html")?;
'''),
(CONV, '''		let browser = BrowserSession::initialize()?;
''', '''		static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
		let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
		let browser = BrowserSession::initialize()?;
'''),
(FS, '''	let mut file = File::create(path)?;
	match file.write_all(content.as_bytes()) {''', '''	let mut file = File::create(path)?;
	match file.write_all(content.as_bytes()).and_then(|()| file.sync_all()) {'''),
]

def sh(c, cwd, t=3000): return sp.run(c, shell=True, cwd=cwd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, errors='replace', timeout=t, env=dict(os.environ, RUST_BACKTRACE='0'))
if __name__ == '__main__':
    sel = sys.argv[1:]
    props = [a for a in sel if a.startswith('C') and a[1:].isdigit()] or ['C%02d' % i for i in range(1, 19) if i != 17]
    names = [a for a in sel if a in B] or list(B)
    for i in names:
        sh('git checkout -q -- .', R)
        for f, old, new in B[i]:
            s = open(f'{R}/{f}').read()
            x = re.findall(re.sub(r'(\\\n)+', r'\\n+', re.escape(old)), s)
            assert len(x) == 1, (i, f, len(x), old)
            open(f'{R}/{f}', 'w').write(s.replace(x[0], new))
        for p in props:
            t = time.time()
            r = sh(f'bash check.sh {p} quick', V)
            v = [l for l in r.stdout.splitlines() if l.startswith('seed ')]
            print({0: 'quiet', 1: 'ALARM'}.get(r.returncode, f'rc{r.returncode}'), i, p, f'{time.time()-t:.0f}s', v[0][:300] if v else '' if r.returncode == 0 else r.stdout[-1500:], flush=True)
            if r.returncode not in (0, 1): break
    sh('git checkout -q -- .', R)
