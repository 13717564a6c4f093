//! Markdown documents as a function of (seed, length, style).
use crate::core::Rng;

const WORDS: &[&str] = &[
    "alpha", "beta", "the", "quick", "brown", "fox", "of", "and", "run", "x", "file.rs", "1.", "3)", "snake_case", "a*b", "C++", "foo(bar)", "R&D", "\"quoted\"", "it's",
    "<b>", "</b>", "&amp;", "&copy;", "&#35;", "\\*", "\\`", "\\[", "50%", "#tag", "@user", "::", "->", "--", "...",
];
const UNI: &[&str] = &["żółw", "naïve", "日本語", "émigré", "Ωmega", "🦀", "👩‍👩‍👧", "שלום", "ﬁ", "a\u{301}", "\u{a0}", "“q”", "€", "𝔘"];

fn word(g: &mut Rng, uni: bool) -> String {
    if uni && g.permille(500) {
        g.pick(UNI).to_string()
    } else {
        g.pick(WORDS).to_string()
    }
}

fn inline(g: &mut Rng, uni: bool, plain: bool) -> String {
    let n = g.range(1, 12);
    let mut v = vec![];
    for _ in 0..n {
        let w = word(g, uni);
        v.push(if plain {
            w
        } else {
            match g.below(16) {
                0 => format!("*{w}*"),
                1 => format!("**{w} {w}**"),
                2 => format!("`{w}`"),
                3 => format!("[{w}](http://example.com/{})", g.below(100)),
                4 => format!("![{w}](img{}.png)", g.below(10)),
                5 => format!("~~{w}~~"),
                6 => format!("<http://example.com/?q={}>", g.below(50)),
                7 => format!("***{w}***"),
                8 => format!("_{w}_"),
                _ => w,
            }
        });
    }
    v.join(" ")
}

fn block(g: &mut Rng, style: u8, nl: &str) -> String {
    let uni = style == 2;
    let plain = style == 0;
    let k = if plain { 0 } else { g.below(20) };
    let mut b = String::new();
    match k {
        1 => b.push_str(&format!("{} {}{nl}", "#".repeat(g.range(1, 6) as usize), inline(g, uni, false))),
        2 => {
            for _ in 0..g.range(1, 5) {
                b.push_str(&format!("- {}{nl}", inline(g, uni, false)));
            }
        }
        3 => {
            for i in 0..g.range(1, 5) {
                b.push_str(&format!("{}. {}{nl}", i + 1, inline(g, uni, false)));
            }
        }
        4 => {
            for _ in 0..g.range(1, 4) {
                b.push_str(&format!("> {}{nl}", inline(g, uni, false)));
            }
        }
        5 => {
            b.push_str(&format!("```rust{nl}"));
            for _ in 0..g.range(0, 8) {
                b.push_str(&format!("    let x = {}; // {}{nl}", g.below(1000), word(g, uni)));
            }
            b.push_str(&format!("```{nl}"));
        }
        6 => b.push_str(&format!("---{nl}")),
        7 => {
            b.push_str(&format!("| {} | {} |{nl}| --- | --- |{nl}", word(g, uni), word(g, uni)));
            for _ in 0..g.range(1, 4) {
                b.push_str(&format!("| {} | {} |{nl}", word(g, uni), word(g, uni)));
            }
        }
        8 => {
            for _ in 0..g.range(1, 4) {
                b.push_str(&format!("- [{}] {}{nl}", if g.permille(500) { "x" } else { " " }, inline(g, uni, true)));
            }
        }
        9 => b.push_str(&format!("<div class=\"c{}\">{}</div>{nl}", g.below(9), word(g, uni))),
        10 => b.push_str(&format!("{}{nl}{}{nl}", inline(g, uni, true), if g.permille(500) { "===" } else { "---" })),
        12 => {
            for _ in 0..g.range(1, 3) {
                b.push_str(&format!("{} [^{}]", word(g, uni), g.below(4)));
            }
            b.push_str(nl);
        }
        13 => b.push_str(&format!("[^{}]: {}{nl}", g.below(4), inline(g, uni, true))),
        14 => {
            b.push_str(&format!("<details>{nl}<summary>{}</summary>{nl}{nl}{}{nl}{nl}</details>{nl}", word(g, uni), inline(g, uni, false)));
        }
        15 => {
            // lists inside lists
            for d in 0..g.range(1, 5) {
                b.push_str(&format!("{}{} {}{nl}", "  ".repeat(d as usize), g.pick(&["-", "+", "*", "1."]), inline(g, uni, true)));
            }
        }
        16 => b.push_str(&format!("{} {} {{#{}}}{nl}", "#".repeat(g.range(1, 6) as usize), word(g, uni), word(g, false))),
        11 => b.push_str(&format!("[ref{}]: http://example.com/{} \"t\"{nl}", g.below(5), g.below(100))),
        _ => {
            for _ in 0..g.range(1, 4) {
                b.push_str(&inline(g, uni, plain));
                b.push_str(nl);
            }
        }
    }
    b.push_str(nl);
    b
}

/// What the renderer looks at, in any order.
const SOUP: &[&str] = &[
    "#", "##", "# ", "{#", "{", "}", "\n", "\n", "\n\n", " ", "  ", "    ", "     ", "\t", "\t\t", "1", "1. ", "0.", "*", "**", "***", "_", "__", "-", "- ", "---", "+ ", "> ", ">> ", ">", "~", "~~", "~~~", "`", "``", "```",
    "[", "]", "[^", "[^1]", "[^1]: ", "]: ", "](", "(", ")", "!", "![", "<", ">", "<details>\n", "<summary>", "</summary>\n", "</details>", "|", "| ", "|\n", "---|", ":--|", "\\", "&", "&amp;", "\"", "'", ":", "http://a.b", "mailto:x@y.z", "@", "- [ ] ", "- [x] ",
    "javascript:", "<!-- ", "-->", "=", "===", "a", "b", "word", "é", "日", "🦀", "\u{301}", "\r\n", "\u{feff}", "\0", "\u{85}", "\u{2028}",
];

fn snippets() -> &'static [&'static str] {
    static S: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    S.get_or_init(|| include_str!("snippets.txt").split('\x1e').collect())
}

/// The examples of the GFM specification, one after another, some changed a little.
fn examples(g: &mut Rng) -> String {
    let mut s = g.pick(snippets()).to_string();
    if g.permille(300) {
        let cs: Vec<char> = s.chars().collect();
        let a = g.below(cs.len() as u64 + 1) as usize;
        let b = (a + g.below(4) as usize).min(cs.len());
        s = cs[..a].iter().collect::<String>() + if g.permille(500) { g.pick(SOUP) } else { "" } + &cs[b..].iter().collect::<String>();
    }
    if g.permille(500) {
        s.push('\n');
    }
    s
}

fn end(g: &mut Rng) -> &'static str {
    g.pick(&["\n", "\n", "\n", "\n", "\n\n", "\r\n", "", " \n", "  \n", "\t\n"])
}

fn some(g: &mut Rng, unit: &str, usual: u64, most: u64) -> String {
    let n = if g.permille(40) { g.range(1, most) } else { g.range(1, usual) };
    unit.repeat(n as usize)
}

/// A few words, mostly without markup of their own.
fn bit(g: &mut Rng) -> String {
    match g.below(12) {
        0 => String::new(),
        1 => " ".into(),
        2 => g.pick(UNI).to_string(),
        3 => format!("{} {}", g.pick(WORDS), g.pick(UNI)),
        4 => g.pick(SOUP).to_string(),
        5 => format!("{}{}", g.pick(SOUP), g.pick(WORDS)),
        6 => format!("{}{}", g.pick(WORDS), g.pick(SOUP)),
        7 => inline(g, true, false),
        _ => g.pick(WORDS).to_string(),
    }
}

fn url(g: &mut Rng) -> String {
    let scheme = match g.below(14) {
        0 => "mailto:".into(),
        1 => "irc:".into(),
        2 => "data:image/".into(),
        3 => "data:".into(),
        4 => "javascript:".into(),
        5 => "x:".into(),
        6 => some(g, "s", 40, 70) + ":",
        7 => String::new(),
        8 => "é:".into(),
        9 => ":".into(),
        10 => "a:b:".into(),
        _ => "http:".to_string(),
    };
    let rest = g.pick(&["//a.b/c?d=e&f", "x@y.z", "x@y@z", "x\\@y", "", "//h%20i", ":x@y.z", "@", "a@", "@b:c", "a(b", "#f", "//日本", "p q", "//$!*'[x]"]).to_string();
    scheme + &rest
}

/// One construct with all the ways in which it can be not quite right.
fn construct(g: &mut Rng, depth: u32) -> String {
    let e = end(g);
    match g.below(17) {
        0 => {
            let h = some(g, "#", 7, 40);
            let id = match g.below(6) {
                0 => format!(" {{#{}}}", bit(g)),
                1 => format!("{{#{}", bit(g)),
                2 => format!("{{{}}}", bit(g)),
                3 => format!(" {}", some(g, "#", 4, 9)),
                _ => String::new(),
            };
            format!("{h}{}{}{id}{e}", g.pick(&[" ", " ", " ", "\t", "", "  "]), bit(g))
        }
        1 => format!("{}{}{}{e}", some(g, ">", 4, 600), g.pick(&[" ", " ", "\t", ""]), bit(g)),
        2 => {
            let t = some(g, "`", 4, 20);
            let u = if g.permille(800) { t.clone() } else { some(g, "`", 4, 20) };
            format!("{t}{}{}{}{u}{e}", g.pick(&["", "", "rust\n", "\n", "é\n"]), bit(g), g.pick(&["", " ", "\n"]))
        }
        3 => {
            let m = g.pick(&["*", "_", "~"]).to_string();
            let (a, b) = (some(g, &m, 4, 9), some(g, &m, 4, 9));
            let b = if g.permille(700) { a.clone() } else { b };
            format!("{a}{}{b}{e}", bit(g))
        }
        4 => format!("{}[{}]({}{}){e}", g.pick(&["", "!"]), bit(g), url(g), g.pick(&["", "", " \"hover\"", " h", " ", " 'é'", " \"\""])),
        5 => format!("<{}>{e}", url(g)),
        6 => {
            let lines = g.below(4);
            let mut s = format!("[^{}]:{}{}\n", bit(g), g.pick(&[" ", ""]), bit(g));
            for _ in 0..lines {
                s.push_str(&format!("{}{}\n", g.pick(&["  ", "    ", " ", "   ", "\t", "\t\t", "     "]), bit(g)));
            }
            s
        }
        7 => format!("{} [^{}]{} [^{}]{e}", bit(g), bit(g), bit(g), g.below(3)),
        8 | 9 => {
            let cols = g.range(1, 5);
            let rows = g.range(0, 4);
            let mut s = String::new();
            for r in 0..rows + 2 {
                let n = if g.permille(60) { g.range(0, 6) } else { cols };
                s.push('|');
                for _ in 0..n {
                    let c = if r == 1 { g.pick(&["---", ":--", "--:", ":-:", " --- ", "", "é"]).to_string() } else { bit(g).replace('\n', "") };
                    s.push_str(&c);
                    s.push('|');
                }
                s.push_str(if g.permille(30) { "" } else { "\n" });
            }
            s
        }
        10 => {
            let inner = if depth < 4 { construct(g, depth + 1) } else { bit(g) };
            let close = g.pick(&["</details>", "</details>", "</details>", "", "</details", "</details></details>"]);
            format!(
                "{}<details>{}{}{}{}{}{inner}{}{close}{e}",
                bit(g),
                g.pick(&["\n", "\n", "\n", "\r\n", "", " \n"]),
                g.pick(&["<summary>", "<summary>", "<summary>", "<summary>", "", " <summary>", "<summary><summary>"]),
                bit(g).replace('\n', ""),
                g.pick(&["</summary>", "</summary>", "</summary>", "</summary> and more", "</summary></summary>", "</summary", "</summary>é", ""]),
                g.pick(&["\n", "\n\n", "\r\n", ""]),
                g.pick(&["", "\n"])
            )
        }
        11 => {
            let mut s = format!("{}{}{}{e}", if g.permille(150) { some(g, g.clone().pick(&["1", "9", "0", "12"]), 12, 60) + "." } else { g.pick(&["-", "-", "+", "+", "*", "--", "1.", "0.", "10."]).to_string() }, g.pick(&[" ", " ", "", "\t"]), bit(g));
            for _ in 0..g.below(4) {
                s.push_str(&format!("{}{}{}", g.pick(&["  - ", "\t- ", "\n\t", "\n\n\t", "\n\n\t", "\n\n\t\t", "\n\n\t\t\t", "\n\n\t\té", "\n\n\t\t\té", "    ", "\t\t", "\té", "\t\t\té"]), bit(g), end(g)));
            }
            s
        }
        12 => format!("{}[{}]{}{}{e}", g.pick(&["- ", "+ ", "* ", "-", "- - "]), g.pick(&[" ", "x", "X", "", "é", "  "]), g.pick(&[" ", "", "  "]), bit(g)),
        13 => format!("{}{}{e}", some(g, g.clone().pick(&[" ", "\t", " \t", "  "]), 5, 30), bit(g)),
        14 => format!("{}{e}", some(g, g.clone().pick(&["-", "*", "_", "+", "- ", "* ", "=", "*\t"]), 5, 300)),
        15 => format!("\\{}{}{e}", g.pick(SOUP), bit(g)),
        _ => format!("{}{}", bit(g), some(g, "\n", 3, 20)),
    }
}

/// Styles: 0 prose, 1 mixed, 2 mixed with much multibyte text, 3 CRLF, 4 byte-order
/// mark and no final newline, 5 one very long line, 6 examples of the
/// specification, 7 markup in any order, 8 one thing again and again, 9
/// many short lines, 10 constructs that are not quite right.
pub fn doc(seed: u64, len: usize, style: u8) -> String {
    let mut g = Rng::new(seed);
    let mut s = String::with_capacity(len + 256);
    if style == 4 {
        s.push('\u{feff}');
    }
    if style == 8 {
        let unit = *g.pick(&[
            "- ", "* ", "+ ", "- # ", "# - ", "> ", ">", "> > ", "- > ", "> - ", "1. ", "     x\n", "\t \tx\n", "  - x\n", "<details>\n<summary>s</summary>\n", "<details>\n<summary>s</summary>\n</details>\n", "[", "![", "[^", "**", "*a", "~~", "`", "``a", "```\n", "|", "|a|b|\n", "\\", "<", "</details>\n", "#", "{#", "- [ ] ",
            "[^1]: a\n  b\n", "&", "\n", " ", "1. x\n", "- x\n", "- x\n\n\tx", "- [ ] x\n", "- [x] x\n", "> x\n", ">> x\n> x\n", "# x\n", "x\n", "x\n\n", "[a](b) ", "[a](b \"c\") ", "![a](b) ", "**x** ", "_x_ ", "~~x~~ ", "`x` ", "[^1] ", "[^1]: x\n",
            "<http://a.b> ", "\tx\n", "    x\n", "\t\tx\n", "***\n", "---\n", "x  \n", "a@b.c ", "```\nx\n```\n", "<b>", "\\*", "{#x}", "9", "\r\n", "\u{e9}",
        ]);
        if g.permille(60) {
            // a wide table
            let n = (len / 12).max(1);
            for row in ["|a", "|:-", "|b", "|c"] {
                s.push_str(&row.repeat(n));
                s.push_str("|\n");
            }
            return s;
        }
        let two = *g.pick(&["", "", "", "- ", "</details>\n", "]", "x\n", "\n"]);
        while s.len() < len {
            s.push_str(unit);
            if !two.is_empty() && g.permille(300) {
                s.push_str(two);
            }
        }
        s.push_str("end\n");
        return s;
    }
    if style == 9 {
        while s.len() < len {
            s.push_str(&format!("line {}\n{}", g.below(1000), if g.permille(100) { "\n" } else { "" }));
        }
        return s;
    }
    let nl = if style == 3 { "\r\n" } else { "\n" };
    while s.len() < len {
        if style == 5 {
            s.push_str(&word(&mut g, true));
            s.push(' ');
        } else if style == 6 {
            s.push_str(&examples(&mut g));
        } else if style == 7 {
            s.push_str(g.pick(SOUP));
        } else if style == 10 {
            s.push_str(&construct(&mut g, 0));
        } else {
            let b = block(&mut g, style, nl);
            s.push_str(&b);
        }
    }
    let mut n = len.min(s.len());
    while !s.is_char_boundary(n) {
        n += 1;
    }
    s.truncate(n);
    if style >= 6 {
        // what comes last is often special
        if g.permille(150) {
            let end = *g.pick(&["</details>", "</summary>", "<details>", "]", ")", ">", "`", "*", "|", "\\", ":", "#", "\t", "}", "~~", "!", "-", " "]);
            if let Some(k) = s.rfind(end) {
                s.truncate(k + end.len());
            }
        } else if g.permille(150) {
            s.truncate(s.trim_end().len());
        }
    }
    s
}

/// A length: small most of the time, otherwise around the sizes of buffers.
pub fn length(g: &mut Rng, max: u64) -> u64 {
    let n = match g.below(12) {
        0 => g.below(4),
        1..=5 => g.range(5, 400),
        6 | 7 => g.range(400, 4000),
        8 => 4096 + g.below(9) - 4,
        9 => 8192 + g.below(9) - 4,
        10 => g.range(8192, 40_000),
        _ => g.range(60_000, 140_000),
    };
    n.min(max)
}
