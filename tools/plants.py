"""Planted bugs: what to change and how to show it. Each was written from the text of a
property and the code alone."""
P = {}
def plant(id, property, edits, demo, needs, breaks, **kw):
    P[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **{'with' if k == 'with_' else k: v for k, v in kw.items()})

FS = 'smd-core/src/fs.rs'; CFG = 'smd-core/src/config.rs'; CONV = 'smd-core/src/convert.rs'; BR = 'smd-core/src/browser.rs'
LIB = 'smd/src/lib.rs'; MAIN = 'smd/src/main.rs'; LOG = 'smd/src/logger.rs'; GFM = 'gfm/src/lib.rs'; MAN = 'smd/src/bin/mangen.rs'; COMP = 'smd/src/bin/completion.rs'
SHIM = ['shim.c']; FC = ['fakechrome.py']

WSTR = '''	let line_count = content.lines().count();

	debug!("Attempting to write file: {}", path_str);

	let mut file = File::create(path)?;
'''

plant('html-buffered-loss', 'C01', [(FS, WSTR, WSTR.replace('let mut file = File::create(path)?;', 'let mut file = std::io::BufWriter::new(File::create(path)?);'))],
'''
printf '# Title\\n\\nsome text\\n' > a.md
F_OP=write F_PATH=a.html F_NTH=1 F_ERR=28 LD_PRELOAD=$T/shim.so $SMD parse -i a.md -o html
[ $? = 0 ] && ! grep -q 'some text' a.html && die "exit 0 but a.html is incomplete"
''', 'a write of the output that fails (full disk)', 'The rendering is buffered and written when the buffer is dropped, where a failing write goes unnoticed: exit 0 with an empty or short output.', with_=SHIM)

plant('html-stale-tail', 'C01', [(FS, WSTR, WSTR.replace('let mut file = File::create(path)?;', '''// Keep the inode and its attributes, only the content changes.
	let mut file = fs::OpenOptions::new()
		.write(true)
		.create(true)
		.truncate(false)
		.open(path)?;
	if file.metadata()?.len() > content.chars().count() as u64 * 4 {
		file.set_len(0)?;
	}
	let old_len = file.metadata()?.len();
	if old_len > content.len() as u64 && old_len < 4096 {
		file.set_len(content.len() as u64)?;
	}'''))],
'''
python3 -c "open('a.md','w').write('# T\\\\n\\\\n'+'word '*1200+'\\\\n')"
python3 -c "open('a.html','w').write('X'*9000)"
$SMD parse -i a.md -o html || die "failed"
grep -q X a.html && die "the older output shows through"
''', 'an older output between one and four times as long as the new one and longer than 4096 bytes', 'The output is not truncated in one range of sizes, so the end of an older, longer output stays.')

plant('read-one-chunk-short', 'C01', [(FS, '''	match fs::read_to_string(path) {''', '''	match read_chunks(path) {'''),
 (FS, '''/// Reads the contents of a file into a string.''', '''/// Reads a file block by block.
fn read_chunks(path: &PathBuf) -> std::io::Result<String> {
	use std::io::Read;
	let mut file = File::open(path)?;
	let mut content = Vec::new();
	let mut block = vec![0; 64 * 1024];
	loop {
		let read = match file.read(&mut block) {
			Err(e) if e.kind() == ErrorKind::Interrupted => continue,
			other => other?,
		};
		content.extend_from_slice(&block[..read]);
		if read < block.len() {
			break;
		}
	}
	String::from_utf8(content)
		.map_err(|e| std::io::Error::new(ErrorKind::InvalidData, e))
}

/// Reads the contents of a file into a string.''')],
'''
printf '# Title\\n\\nsometextattheend\\n' > a.md
F_OP=read F_PATH=a.md F_NTH=1 F_SHORT=6 LD_PRELOAD=$T/shim.so $SMD parse -i a.md -o html || exit 0
grep -q 'attheend' a.html || die "only part of the document was converted"
''', 'a read that returns fewer bytes than asked for before the end of the file', 'A short read is taken for the end of the document: exit 0 with the rendering of a part of it.', with_=SHIM)

plant('wait-for-space', 'C02', [(LIB, '''				fs::write_to_file(&out_path, &result)?;

				return Ok(());''', '''				while let Err(e) = fs::write_to_file(&out_path, &result) {
					match e {
						// Give the user a chance to make room.
						Error::IoError(e)
							if e.kind() == ErrorKind::StorageFull =>
						{
							std::thread::sleep(
								std::time::Duration::from_secs(1),
							)
						}
						e => return Err(e),
					}
				}

				return Ok(());''')],
'''
printf '# Title\\n' > a.md
ln -s /dev/full a.html
timeout 10 $SMD parse -i a.md -o html
r=$?
[ $r = 124 ] && die "does not end on a full disk"
[ $r = 0 ] && die "exit 0 on a full disk"
''', 'a disk that stays full', 'A full disk makes the conversion wait forever instead of failing.')

plant('silent-usage-of-source-error', 'C02', [(MAIN, '''		Err(e) => {
			log::error!("{}", e);
			1
		}''', '''		Err(e) => {
			log::error!("{}", e);
			match e {
				smd_core::error::Error::IoError(e) => {
					e.raw_os_error().map_or(1, |code| code & !0x1)
				}
				_ => 1,
			}
		}''')],
'''
printf '# Title\\n' > a.md
F_OP=write F_PATH=a.html F_NTH=1 F_ERR=1 LD_PRELOAD=$T/shim.so $SMD parse -i a.md -o html && die "exit 0 after a failed write"
mkdir b; printf '# Title\\n' > b/b.md
F_OP=open F_PATH=b.html F_NTH=1 F_ERR=1 LD_PRELOAD=$T/shim.so $SMD parse -i b/b.md -o html && die "exit 0 although the output could not be created"
''', 'a system call failing with errno 1 (EPERM)', 'The exit status is derived from errno in a way that makes EPERM a success.', with_=SHIM)

plant('sweep-old-pages', 'C03', [(CONV, '''		let current_dir = env::current_dir()?;
''', '''		let current_dir = env::current_dir()?;
		// Remove pages that crashed conversions left behind.
		for entry in fs::read_dir(&current_dir)?.flatten() {
			let name = entry.file_name().to_string_lossy().to_string();
			if name.starts_with("tmp") && name.ends_with(".html") {
				let _ = fs::remove_file(entry.path());
			}
		}
'''), (CONV, '''		let converted = browser.print_to_pdf(&tab_id, options)?;

		Ok(converted)''', '''		browser.print_to_pdf(&tab_id, options)''')],
'''
printf '# Title\\n' > a.md; echo mine > tmp.html
$SMD parse -i a.md || die "failed"
[ "$(cat tmp.html)" = mine ] || die "a file of the user's is gone"
''', "a file of the user's in the working directory called tmp*.html", 'A PDF conversion deletes files of the user (and pages of concurrent conversions).', with_=FC)

plant('probe-output-early', 'C04', [(LIB, '''			let mut out_path = args.input.clone();
''', '''			let mut out_path = args.input.clone();
			if args.output == args::OutputFileFormat::Pdf {
				// Fail before starting a browser if the result cannot be
				// written.
				std::fs::OpenOptions::new()
					.append(true)
					.create(true)
					.open(out_path.with_extension(PDF_FILE_ENDING))?;
			}
'''), (LIB, '''			info!("Transpiling markdown");''', '''			info!("Transpiling markdown to html");''')],
'''
printf '# Title\\n' > a.md
FC_FAULT=print-error $SMD parse -i a.md && die "exit 0"
[ -e a.pdf ] && die "an output appeared although the browser failed"
''', 'a browser failure while there is no earlier output', 'The output file is created, empty, before the conversion, and stays when it fails.', with_=FC)

plant('preallocate-output', 'C04', [(FS, '''	let path_str = path.to_string_lossy();

	debug!("Attempting to write file: {}", path_str);

	let mut file = File::create(path)?;
''', '''	let path_str = path.to_string_lossy();

	debug!("Attempting to write file: {}", path_str);

	let mut file = reserve(path, bytes.len() as u64)?;
'''), (FS, '''/// Writes bytes to a file.
''', '''/// Creates a file and reserves its space at once.
fn reserve(path: &PathBuf, size: u64) -> Result<File> {
	let file = File::create(path)?;
	file.set_len(size)?;
	Ok(file)
}

/// Writes the bytes to a file.
''')],
'''
printf '# Title\\n' > a.md
F_OP=write F_PATH=a.pdf F_NTH=1 F_KILL=1 LD_PRELOAD=$T/shim.so $SMD parse -i a.md
[ -s a.pdf ] && ! head -c 4 a.pdf | grep -q '%PDF' && die "a killed run left something that is no prefix of the PDF"
''', 'a kill between reserving the space and writing', 'A killed conversion leaves a file of zero bytes (NULs) of the full length as output.', with_=SHIM + FC)

plant('init-over-empty', 'C05', [(CFG, '''			return Err(Error::ConfigAlreadyExistsError(
				path.to_string_lossy().to_string(),
			));
		}
''', '''			// A blank file holds no settings that could be lost.
			let blank = std::fs::read(&path)
				.is_ok_and(|content| content.trim_ascii().is_empty());
			if !blank {
				return Err(Error::ConfigAlreadyExistsError(
					path.to_string_lossy().to_string(),
				));
			}
			std::fs::remove_file(&path)?;
		}
''')],
'''
mkdir -p $XDG_CONFIG_HOME/smd; : > $XDG_CONFIG_HOME/smd/config.toml
$SMD initialize && die "exit 0 although a configuration exists"
[ -s $XDG_CONFIG_HOME/smd/config.toml ] && die "the configuration was replaced"
''', 'an existing configuration that is blank (or being saved in place at that moment)', 'An existing blank configuration is removed and replaced.')

plant('init-header-later', 'C06', [(CFG, '''		let mut toml = toml::to_string_pretty(&config)?;
		toml.insert_str(
			0,
''', '''		let mut toml = toml::to_string_pretty(&config)?;
		let settings = toml.clone();
		toml.insert_str(
			0,
'''), (CFG, '''		let published = fs::write_to_file(&tmpfile, &toml)
			.and_then(|()| Self::publish(&tmpfile, &path));
''', '''		let published = fs::write_to_file(&tmpfile, &settings)
			.and_then(|()| Self::publish(&tmpfile, &path))
			.and_then(|()| fs::write_to_file(&path, &toml));
''')],
'''
C=$XDG_CONFIG_HOME/smd/config.toml
F_OP=write F_PATH=config.toml F_NTH=1 F_KILL=1 LD_PRELOAD=$T/shim.so $SMD initialize
printf '# Title\\n' > a.md
if [ -e $C ]; then $SMD parse -i a.md -o html || die "a killed initialize left a broken configuration"; fi
''', 'a kill or a failed write after the configuration got its name', 'The published configuration is written a second time in place, so that it is empty or partial for a while.', with_=SHIM)

plant('config-lossy-utf8', 'C07', [(CFG, '''			let content = fs::read_to_string(&config_path)?;
''', '''			let content = match fs::read_to_string(&config_path) {
				// Editors with other encodings only matter in comments.
				Err(Error::IoError(e)) if e.kind() == ErrorKind::InvalidData => {
					String::from_utf8_lossy(&std::fs::read(&config_path)?)
						.to_string()
				}
				content => content?,
			};
''')],
'''
mkdir -p $XDG_CONFIG_HOME/smd
printf '[parse]\\non_parse_error = "skip"\\nkeep_temp_files = false\\n# caf\\xe9\\n' > $XDG_CONFIG_HOME/smd/config.toml
printf '# Title\\n' > a.md
$SMD parse -i a.md -o html && die "a configuration that is not UTF-8 was accepted"
''', 'a configuration that is not valid UTF-8 in a place that does not matter to TOML', 'A configuration that is not valid UTF-8 is read in a mangled form instead of being refused.')

plant('config-io-default', 'C07', [(CFG, '''			let content = fs::read_to_string(&config_path)?;
			let config = Self::parse_from_str(&content)?;
			return Ok(config);
''', '''			match fs::read_to_string(&config_path) {
				Ok(content) => return Self::parse_from_str(&content),
				// Removed in the meantime, or the disk is busy: go on without.
				Err(Error::IoError(e)) if e.kind() != ErrorKind::InvalidData => {}
				Err(e) => return Err(e),
			}
''')],
'''
mkdir -p $XDG_CONFIG_HOME/smd
printf '[parse]\\non_parse_error = "nonsense"\\nkeep_temp_files = false\\n' > $XDG_CONFIG_HOME/smd/config.toml
printf '# Title\\n' > a.md
F_OP=read F_PATH=config.toml F_NTH=1 F_ERR=5 LD_PRELOAD=$T/shim.so $SMD parse -i a.md -o html && die "an unreadable configuration was replaced by the defaults"
''', 'an I/O error while reading the configuration', 'A configuration that cannot be read is silently replaced by the defaults.', with_=SHIM)

plant('page-lock-file', 'C12', [(CONV, '''		let browser = BrowserSession::initialize()?;

		let current_dir = env::current_dir()?;
''', '''		// One conversion per directory at a time.
		let current_dir = env::current_dir()?;
		let lock = current_dir.join(".smd.lock");
		fs::File::create_new(&lock)?;
		let converted = Self::convert_page(html, &current_dir);
		fs::remove_file(&lock)?;

		converted
	}
}

impl PDFConverter {
	fn convert_page(
		html: &str,
		current_dir: &std::path::Path,
	) -> Result<Vec<u8>> {
		let browser = BrowserSession::initialize()?;

'''), (CONV, 'create_unique(&current_dir,', 'create_unique(current_dir,')],
'''
printf '# Title\\n' > a.md
F_OP=write F_PATH=tmp- F_NTH=1 F_KILL=1 LD_PRELOAD=$T/shim.so $SMD parse -i a.md
$SMD parse -i a.md || die "the same command fails after a crash"
''', 'a kill during an earlier conversion in the same directory', 'A lock file that a killed run leaves behind makes every later conversion in that directory fail.', with_=SHIM + FC)

plant('skip-load-wait', 'C09', [(BR, '''		tab.wait_until_navigated().map_err(|_| {
			Error::BrowserError(
				"Failed to wait until navigation is done.".to_string(),
			)
		})?;
''', '''		// The reply to the navigation says that the page is there.
		if tab.get_url() != file_url {
			tab.wait_until_navigated().map_err(|_| {
				Error::BrowserError(
					"Failed to wait until navigation is done.".to_string(),
				)
			})?;
		}
'''), (BR, '''			Error::BrowserError("Failed to open html file.".to_string())
		})?;
''', '''			Error::BrowserError("Failed to open html file.".to_string())
		})?;
		std::thread::sleep(std::time::Duration::from_millis(20));
''')],
'''
printf '# Title\\n\\nbodytext\\n' > a.md
FC_EARLYURL=1 FC_LOAD=1 $SMD parse -i a.md || exit 0
grep -q 'bodytext' a.pdf || die "an unfinished page was printed"
''', 'a page that takes longer to load than the reply to the navigation, and an early target-info event', 'The page is printed (and removed) before it is loaded.', with_=FC)

plant('retry-print-forever', 'C10', [(BR, '''		let pdf_data = tab.print_to_pdf(Some(options)).map_err(|_| {
			Error::BrowserError("Failed to print to PDF:".to_string())
		})?;
''', '''		// Printing sometimes fails while fonts are loading.
		let pdf_data = loop {
			let options = PrintToPdfOptions {
				prefer_css_page_size: Some(true),
				..Default::default()
			};
			match tab.print_to_pdf(Some(options)) {
				Ok(pdf_data) => break pdf_data,
				Err(_) => std::thread::sleep(
					std::time::Duration::from_millis(200),
				),
			}
		};
''')],
'''
printf '# Title\\n' > a.md
FC_FAULT=crash-print timeout 60 $SMD parse -i a.md
r=$?
[ $r = 124 ] && die "hangs after the browser crashed"
[ $r = 0 ] && die "exit 0"
''', 'a browser that fails at the print', 'Printing is retried without end, so a crashed browser makes smd hang.', with_=FC)

plant('keep-browser-for-reuse', 'C11', [(CONV, '''		let browser = BrowserSession::initialize()?;
''', '''		// Starting a browser is slow; keep it for the next conversion.
		static SESSION: std::sync::OnceLock<BrowserSession> =
			std::sync::OnceLock::new();
		let browser = match SESSION.get() {
			Some(browser) => browser,
			None => {
				let browser = BrowserSession::initialize()?;
				SESSION.get_or_init(|| browser)
			}
		};
''')],
'''
printf '# Title\\n' > a.md
FC_LINGER=30 FC_PID=$T/pid $SMD parse -i a.md || die failed
sleep 1
p=$(cat $T/pid); kill -0 $p 2>/dev/null && { kill -9 $p; die "the browser is still running"; }
''', 'nothing but looking at the process table after the end', 'The browser is kept in a static and never ended.', with_=FC)

plant('debug-preview', 'C13', [(FS, '''	debug!("Serializing object...");''', '''	debug!("Serializing an object...");'''), (LIB, '''			info!("Transpiling markdown");''', '''			log::debug!(
				"Document starts with: {:?}",
				&content[..content.len().min(64)]
			);
			info!("Transpiling markdown");''')],
'''
python3 -c "open('a.md','w').write('# Title\\\\n\\\\n'+'x'*54+'\\u00e9\\u00e9\\u00e9 and more\\\\n')"
$SMD parse -i a.md -o html || die "fails without -v"
$SMD -v parse -i a.md -o html >/dev/null 2>&1 || die "-v makes the conversion fail"
''', 'verbose logging and a multi-byte character across the 64th byte', 'The preview in a debug message panics on a character boundary, but only with -v.')

plant('footnote-counter', 'C14', [(GFM, '''						let mut count = 1;
''', '''						FOOTNOTES.store(0, Ordering::SeqCst);
'''), (GFM, '''										ref_count = count
									)
									.as_str(),
								);
								count += 1;
''', '''										ref_count = FOOTNOTES
											.fetch_add(1, Ordering::SeqCst) +
											1
									)
									.as_str(),
								);
'''), (GFM, '''use lexer::Lexer;''', '''/// Number of the footnote references seen so far.
static FOOTNOTES: std::sync::atomic::AtomicUsize =
	std::sync::atomic::AtomicUsize::new(0);

use lexer::Lexer;
use std::sync::atomic::Ordering;''')],
'''
mkdir -p $T/d/src; cat > $T/d/Cargo.toml <<X
[package]
name = "d"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
gfm = { path = "$REPO/gfm" }
X
cp $REPO/Cargo.lock $T/d/
cat > $T/d/src/main.rs <<'X'
fn main() {
    let doc = "a [^1] b [^2] c [^3] d [^4]\\n";
    let alone = gfm::Parser::render(doc);
    let ts: Vec<_> = (0..8).map(|_| { let a = alone.clone(); std::thread::spawn(move || (0..4000).all(|_| gfm::Parser::render(doc) == a)) }).collect();
    let ok = ts.into_iter().fold(true, |x, t| t.join().unwrap() & x);
    std::process::exit(!ok as i32);
}
X
HOME=/root cargo run -q --offline --manifest-path $T/d/Cargo.toml 2>/dev/null || die "concurrent renderings differ"
''', 'two renderings of documents with footnotes at the same time', 'The numbering of footnotes is kept in a static that concurrent renderings share.')

plant('man-unflushed', 'C15', [(MAN, '''	fs::write(&out_path, buffer)?;
''', '''	let mut out = std::io::BufWriter::with_capacity(
		64 * 1024,
		fs::File::create(&out_path)?,
	);
	std::io::Write::write_all(&mut out, &buffer)?;
''')],
'''
mkdir o
F_OP=write F_PATH=smd.1 F_NTH=1 F_ERR=28 LD_PRELOAD=$T/shim.so OUT_DIR=$PWD/o $REPO/target/debug/smd-mangen
[ $? = 0 ] && ! grep -q smd o/smd.1 && die "exit 0 without a man page"
''', 'a failing write of the man page', 'The man page is buffered and the error of the final write is lost.', with_=SHIM)

plant('same-length-unchanged', 'C16', [(FS, '''	let path_str = path.to_string_lossy();

	debug!("Attempting to write file: {}", path_str);

	let mut file = File::create(path)?;
''', '''	let path_str = path.to_string_lossy();

	debug!("Attempting to write file: {}", path_str);

	// Do not touch the file if it is unchanged.
	if fs::read(path).is_ok_and(|old| {
		old.len() == bytes.len() &&
			old.iter().rev().take(64).eq(bytes.iter().rev().take(64))
	}) {
		return Ok(());
	}

	let mut file = File::create(path)?;
''')],
'''
printf '# Title\\n' > a.md
printf '%%PDF-FAKE\\n<h1>Title</h1>\\n' > $T/ref
python3 - <<'X'
d = b'# A' + b'x ' * 200 + b'\\n'
open('a.md','wb').write(d)
X
$SMD parse -i a.md || die failed
cp a.pdf first.pdf
python3 - <<'X'
d = b'# B' + b'x ' * 200 + b'\\n'
open('a.md','wb').write(d)
X
$SMD parse -i a.md || die failed
cmp -s a.pdf first.pdf && die "the changed document was not written"
''', 'an older file of the same length with the same end', 'write_bytes takes a file of the same length and end for unchanged.', with_=FC)

plant('shared-page-in-process', 'C08', [(CONV, '''		let current_dir = env::current_dir()?;
		let tmpfile = create_unique(&current_dir, "tmp", "html")?;
''', '''		// Every conversion of this program uses the same page.
		static PAGE: std::sync::OnceLock<std::path::PathBuf> =
			std::sync::OnceLock::new();
		let tmpfile = match PAGE.get() {
			Some(page) => page.clone(),
			None => {
				let dir = env::current_dir()?;
				let page = create_unique(&dir, "tmp", "html")?;
				PAGE.get_or_init(|| page).clone()
			}
		};
''')],
'''
mkdir -p $T/d/src; cat > $T/d/Cargo.toml <<X
[package]
name = "d"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
smd-core = { path = "$REPO/smd-core" }
X
cp $REPO/Cargo.lock $T/d/
cat > $T/d/src/main.rs <<'X'
use smd_core::convert::{convert_html, PDFConverter};
fn main() {
    let ts: Vec<_> = (0..3).map(|i| std::thread::spawn(move || {
        let html = format!("<p>document {i}</p>");
        match convert_html::<PDFConverter>(&html) {
            Ok(p) => String::from_utf8_lossy(&p).contains(&html),
            Err(_) => false,
        }
    })).collect();
    let ok = ts.into_iter().fold(true, |x, t| t.join().unwrap() & x);
    std::process::exit(!ok as i32);
}
X
HOME=/root cargo build -q --offline --manifest-path $T/d/Cargo.toml --target-dir $REPO/target/demo 2>/dev/null || exit 2
$REPO/target/demo/debug/d || die "concurrent conversions of one program disturb each other"
''', 'two threads of one program converting at the same time', 'All conversions of one process share one temporary page.', with_=FC)

NPM = ['npm.sh']
plant('npm-signal-success', 'C17', [('npm/smd/src/cli.ts', '''  const processResult = await runGitCliff(args);
''', '''  // The status is passed on below; no stack trace for a failed conversion.
  const processResult = await runGitCliff(args, { reject: false });
''')],
'''
. "$HERE/npm.sh"
npm_app <<'X'
[ "$1" = die ] && kill -9 $$
exit ${1:-0}
X
$WRAPPER 0 || die "exit status 0 is not passed on"
$WRAPPER 3 2>/dev/null && die "a failed smd counts as success"
$WRAPPER die 2>/dev/null && die "a killed smd counts as success"
''', 'the binary is killed by a signal (or cannot be started)', 'With reject: false the result has no exitCode when a signal killed smd, and the wrapper exits 0.', with_=NPM)

plant('npm-shared-args', 'C17', [('npm/smd/src/index.ts', '''  const exePath = await getExePath();
  const args = Array.isArray(argsOrOptions)
    ? argsOrOptions
    : optionsToStringArgs(argsOrOptions);

  return execa(fileURLToPath(exePath), args, {
    stdio: "inherit",
    ...execaOptions,
  });''', '''  request.args = Array.isArray(argsOrOptions)
    ? argsOrOptions
    : optionsToStringArgs(argsOrOptions);
  request.options = { stdio: "inherit", ...execaOptions };
  const exePath = await getExePath();

  return execa(fileURLToPath(exePath), request.args, request.options);'''),
('npm/smd/src/index.ts', '''export type { Options } from "./options.js";
''', '''export type { Options } from "./options.js";

/** What to run, filled in while the path of the binary is looked up. */
const request: { args: string[]; options: ExecaOptions } = {
  args: [],
  options: {},
};
''')],
'''
. "$HERE/npm.sh"
npm_app <<'X'
echo "ran $*"
X
cat > $T/app/two.mjs <<'X'
import * as smd from './node_modules/smd/lib/index.js';
const run = smd.runGitCliff;
const r = await Promise.all([run(['parse', '-i', 'a.md'], { stdio: 'pipe' }), run(['parse', '-i', 'b.md'], { stdio: 'pipe' })]);
process.exit(r[0].stdout.includes('a.md') && r[1].stdout.includes('b.md') ? 0 : 1);
X
node --no-warnings $T/app/two.mjs || die "two calls at once run the same command"
''', 'two library calls at the same time', 'The arguments are kept in a module variable across an await, so concurrent calls all run the last one\'s command.', with_=NPM)

LIBDEMO = '''
mkdir -p $T/d/src; cat > $T/d/Cargo.toml <<X
[package]
name = "d"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
smd-core = { path = "$REPO/smd-core" }
X
cp $REPO/Cargo.lock $T/d/
'''
LIBRUN = '''
HOME=/root cargo build -q --offline --manifest-path $T/d/Cargo.toml --target-dir $REPO/target/demo 2>/dev/null || exit 2
'''
plant('permit-lost', 'C18', [('smd-core/src/convert.rs', '''		let browser = BrowserSession::initialize()?;
''', '''		// Browsers are heavy: no more than two at a time.
		let (free, freed) = &PERMITS;
		let mut left =
			freed.wait_while(free.lock().unwrap(), |left| *left == 0).unwrap();
		*left -= 1;
		drop(left);

		let browser = BrowserSession::initialize()?;
'''), ('smd-core/src/convert.rs', '''		let converted = browser.print_to_pdf(&tab_id, options)?;

''', '''		let converted = browser.print_to_pdf(&tab_id, options)?;

		*free.lock().unwrap() += 1;
		freed.notify_one();

'''), ('smd-core/src/convert.rs', '''pub struct PDFConverter;
''', '''/// How many more browsers may be started.
static PERMITS: (Mutex<usize>, Condvar) = (Mutex::new(2), Condvar::new());

pub struct PDFConverter;
'''), ('smd-core/src/convert.rs', '''use std::{
	env,
	fs,
};
''', '''use std::{
	env,
	fs,
	sync::{
		Condvar,
		Mutex,
	},
};
''')],
LIBDEMO + '''
cat > $T/d/src/main.rs <<'X'
use smd_core::convert::{convert_html, PDFConverter};
fn main() {
    std::env::set_var("FC_FAULT", "print-error");
    for _ in 0..2 {
        assert!(convert_html::<PDFConverter>("<p>x</p>").is_err());
    }
    std::env::remove_var("FC_FAULT");
    let ok = convert_html::<PDFConverter>("<p>y</p>").is_ok();
    std::process::exit(!ok as i32);
}
X
''' + LIBRUN + '''
timeout 100 $REPO/target/demo/debug/d || die "after two failed conversions a program cannot convert any more"
''', 'two conversions of one program that fail after the browser limit was taken, then a third', 'A failed conversion never gives its permit back, so after two failures every later conversion of the program waits for ever.', with_=FC)

plant('log-kept-open', 'C18', [('smd-core/src/fs.rs', '''			error!("Failed to write file: {}", path_str);
			Err(e.into())
		}
	}
}

/// Writes bytes to a file.''', '''			error!("Failed to write file: {}", path_str);
			FAILED.lock().unwrap().push(file);
			Err(e.into())
		}
	}
}

/// Writes bytes to a file.'''), ('smd-core/src/fs.rs', '''/// Trait for serializing objects to strings.''', '''/// Files that could not be written, kept open until the program ends so that
/// their space is not reused before the user has seen the error.
static FAILED: std::sync::Mutex<Vec<File>> = std::sync::Mutex::new(Vec::new());

/// Trait for serializing objects to strings.''')],
LIBDEMO + '''
cat > $T/d/src/main.rs <<'X'
fn main() {
    let n = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let full = "/dev/full".into();
    let before = n();
    for _ in 0..20 {
        assert!(smd_core::fs::write_to_file(&full, "x").is_err());
    }
    std::process::exit((n() > before) as i32);
}
X
''' + LIBRUN + '''
$REPO/target/demo/debug/d || die "failed writes leave descriptors open"
''', 'a write that fails after the file was opened (a full disk), repeatedly, in one program', 'Every failed write keeps its file open for the rest of the program: a long-lived program runs out of descriptors.')

plant('table-column-bound', 'C02', [('gfm/src/lexer.rs', '''		let mut rows = Vec::new();
		for l in lines.into_iter() {
''', '''		let mut widths = [0; 64];
		for (column, heading) in headings.iter().enumerate() {
			widths[column] = heading.len();
		}
		debug!("Table with columns of {:?} bytes", widths);
		let mut rows = Vec::with_capacity(lines.len());
		for l in lines.into_iter() {
''')],
'''
python3 - <<'X'
row = lambda c: '|' + '|'.join([c] * 80) + '|\\n'
open('a.md', 'w').write('# T\\n\\n' + row('a') + row('-') + row('b'))
X
$SMD parse -i a.md -o html || die "a wide table makes the conversion fail"
''', 'a table of more than 64 columns', 'Column widths are collected in an array of fixed size, so a wide table makes smd panic.')

plant('optional-shells', 'C15', [(COMP, '''		clap_complete::generate_to(
			shell,
			&mut app,
			env!("CARGO_PKG_NAME"),
			&out_dir,
		)?;
''', '''		let generated = clap_complete::generate_to(
			shell,
			&mut app,
			env!("CARGO_PKG_NAME"),
			&out_dir,
		);
		match (shell, generated) {
			(Shell::Elvish | Shell::PowerShell, Err(e)) => {
				eprintln!("Skipping {shell}: {e}")
			}
			(_, generated) => drop(generated?),
		}
''')],
'''
mkdir -p o/smd.elv
OUT_DIR=$PWD/o $REPO/target/debug/smd-completions && die "exit 0 without the Elvish completions"
rm -r o; mkdir o
OUT_DIR=$PWD/o $REPO/target/debug/smd-completions || die "fails"
''', 'a failure that concerns only the file of Elvish or PowerShell', 'Failing to write the less common shells\' completions is ignored: exit 0 with a missing or stale file.')

plant('partial-read-ok', 'C16', [(FS, '''	match fs::read_to_string(path) {''', '''	let read = File::open(path).and_then(|mut file| {
		let mut bytes = Vec::new();
		match std::io::Read::read_to_end(&mut file, &mut bytes) {
			// the end of some special files is reported as an error
			Err(e) if bytes.is_empty() => return Err(e),
			_ => {}
		}
		String::from_utf8(bytes)
			.map_err(|e| std::io::Error::new(ErrorKind::InvalidData, e))
	});
	match read {''')],
'''
python3 -c "open('a.md','w').write('line\\\\n\\\\n'*40000)"
F_OP=read F_PATH=a.md F_NTH=2 F_ERR=5 LD_PRELOAD=$T/shim.so $SMD parse -i a.md -o html && die "an unreadable document was converted in part"
$SMD parse -i a.md -o html || die "fails"
''', 'a read that fails after an earlier one succeeded (a bad block in the middle of a file)', 'A failed read after some data is taken for the end of the file, so part of the content is returned as Ok.', with_=SHIM)

plant('untimely-print', 'C09', [(BR, '''		tab.wait_until_navigated().map_err(|_| {
			Error::BrowserError(
				"Failed to wait until navigation is done.".to_string(),
			)
		})?;
''', '''		// Pages that keep the network busy never count as idle; what has been
		// loaded by then can be printed.
		if let Err(e) = tab.wait_until_navigated() {
			if !e.to_string().contains("never came") {
				return Err(Error::BrowserError(
					"Failed to wait until navigation is done.".to_string(),
				));
			}
		}
''')],
'''
printf '# Title\\n\\nbody text\\n' > a.md
FC_LOAD=45 timeout 120 $SMD parse -i a.md
[ $? = 0 ] && ! grep -qa 'body text' a.pdf && die "exit 0 with a print of a page that was not loaded"
FC_LOAD=1 $SMD parse -i a.md || die "fails"
''', 'a page that takes longer to load than the client waits', 'Running out of time while waiting for the page is ignored, so an empty or half loaded page is printed.', with_=FC)

plant('config-single-read', 'C07', [(CFG, '''			let content = fs::read_to_string(&config_path)?;
''', '''			// The configuration is small: one read is enough.
			let mut content = vec![0; 64 * 1024];
			let mut file = std::fs::File::open(&config_path)?;
			let length = std::io::Read::read(&mut file, &mut content)?;
			content.truncate(length);
			let content = String::from_utf8(content)
				.map_err(|e| Error::DeserializeError(e.to_string()))?;
''')],
'''
mkdir -p $XDG_CONFIG_HOME/smd
printf '[parse]\\non_parse_error = "skip"\\nkeep_temp_files = false\\n' > $XDG_CONFIG_HOME/smd/config.toml
python3 - <<'X' >> $XDG_CONFIG_HOME/smd/config.toml
print('# padding\\n' * 9000)
print('this is not valid TOML =')
X
printf '# T\\n' > a.md
$SMD parse -i a.md -o html && die "an invalid configuration was accepted"
sed -i '$d' $XDG_CONFIG_HOME/smd/config.toml; sed -i '/not valid/d' $XDG_CONFIG_HOME/smd/config.toml
$SMD parse -i a.md -o html || die "a valid configuration was refused"
''', 'a configuration longer than one read returns, or a short read', 'Only the first read of the configuration counts; the rest of the file is ignored.')
