//! Workload generators: documents by construction (content known), hostile
//! formatting, token soups, mutations.
use crate::model::{MDoc, MEntry, MNode};
use crate::refparse::{bare_ok, is_disallowed, is_newline_char, is_space, number, Val};
use crate::rng::Rng;

pub const SPACES: [&str; 18] = [
    "\u{9}", " ", "\u{A0}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}", "\u{2004}",
    "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200A}", "\u{202F}", "\u{205F}",
    "\u{3000}",
];
pub const NEWLINES: [&str; 8] =
    ["\n", "\r\n", "\r", "\u{85}", "\u{B}", "\u{C}", "\u{2028}", "\u{2029}"];

#[derive(Clone)]
pub struct Style {
    /// 0..=100: chance of anything unusual in formatting
    pub wild: usize,
    pub comments: bool,
    pub slashdash: bool,
    /// 0..=100 unusual strings
    pub weird_str: usize,
    pub max_depth: usize,
    pub max_nodes: usize,
    pub big: bool,
    /// number comments `cNNN` so they can be tracked
    pub tag_comments: bool,
    /// "\n" only
    pub plain_newlines: bool,
    pub types: bool,
}
impl Style {
    pub fn wild() -> Style {
        Style { wild: 40, comments: true, slashdash: true, weird_str: 45, max_depth: 4, max_nodes: 4, big: false, tag_comments: false, plain_newlines: false, types: true }
    }
    pub fn mild() -> Style {
        Style { wild: 8, comments: true, slashdash: true, weird_str: 15, max_depth: 3, max_nodes: 4, big: false, tag_comments: false, plain_newlines: true, types: true }
    }
    pub fn random(r: &mut Rng) -> Style {
        let mut s = if r.p(1, 2) { Style::wild() } else { Style::mild() };
        s.comments = r.p(3, 4);
        s.slashdash = r.p(3, 5);
        s.types = r.p(3, 4);
        s.weird_str = *r.pick(&[0, 10, 45, 90]);
        s.plain_newlines = r.p(1, 2);
        s
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub st: Style,
    pub out: String,
    pub ncomment: usize,
    pub comments: Vec<String>,
    in_slash: usize,
}

pub fn rand_char(r: &mut Rng) -> char {
    match r.below(12) {
        0..=4 => (b'a' + r.below(26) as u8) as char,
        5 => *r.pick(&['"', '\\', '#', '/', '=', '(', ')', '{', '}', '[', ']', ';']),
        6 => *r.pick(&['\n', '\r', '\t', ' ', '\u{8}', '\u{c}', '\u{b}', '\u{85}', '\u{2028}', '\u{2029}']),
        7 => (b'0' + r.below(10) as u8) as char,
        8 => *r.pick(&['.', '-', '+', '_', 'e', 'x', '\'', ',', '<', '>', '*', '~']),
        9 => *r.pick(&[
            'é', '日', '🎉', '\u{A0}', '\u{3000}', '\u{200D}', '\u{301}', '\u{202F}', '\u{1F468}', 'ß', '\u{10FFFF}',
            '\u{E000}',
        ]),
        10 => *r.pick(&[
            '\u{0}', '\u{1}', '\u{7}', '\u{E}', '\u{1F}', '\u{7F}', '\u{200E}', '\u{200F}', '\u{202A}', '\u{202E}',
            '\u{2066}', '\u{2069}', '\u{FEFF}', '\u{1B}',
        ]),
        _ => loop {
            let u = r.below(0x110000) as u32;
            if let Some(c) = char::from_u32(u) {
                break c;
            }
        },
    }
}

pub const TRICKY: [&str; 64] = [
    "", "a", "true", "false", "null", "inf", "-inf", "nan", "#true", "-", "+", ".", "..", "-.", "+.", "+.5", "-.5",
    ".5", "-5", "+5", "5", "0x1F", "0b1", "1e5", "1_000", "--", "-a", "+-", "-.a", "r", "r\"x\"", "r#\"x\"#", "/", "//",
    "/*", "*/", "/-", "\\", "\"", "\"\"", "\"\"\"", "\n", "a\nb", " ", "  a", "a  ", "\t", "{", "}", ";", "=", "(", ")",
    "kdl-version", "a\r\nb", "\u{FEFF}", "\u{7F}", "\u{200E}x", "x\u{2028}y", "\u{85}", "#", "##", "a#b", "\n\n  x\n ",
];

pub fn rand_string(r: &mut Rng, weird: usize) -> String {
    if r.below(100) >= weird {
        let n = r.range(1, 8);
        return (0..n)
            .map(|i| if i > 0 && r.p(1, 6) { *r.pick(&['-', '_', '0', '9', '.', '!', '?']) } else { (b'a' + r.below(26) as u8) as char })
            .collect();
    }
    if r.p(1, 3) {
        return r.pick(&TRICKY).to_string();
    }
    let n = r.few(9);
    let mut s = String::new();
    for _ in 0..n {
        if r.p(1, 8) {
            s.push_str(r.pick(&TRICKY));
        } else {
            s.push(rand_char(r));
        }
    }
    s
}

pub fn rand_number_text(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(4) {
        0 => s.push('-'),
        1 => s.push('+'),
        _ => {}
    }
    let digs = |r: &mut Rng, set: &[u8], n: usize, s: &mut String| {
        s.push(*r.pick(set) as char);
        for _ in 1..n {
            if r.p(1, 7) {
                s.push('_');
            }
            s.push(*r.pick(set) as char);
        }
        if r.p(1, 8) {
            s.push('_');
        }
    };
    match r.below(8) {
        0 => {
            s.push_str("0x");
            let hi = if r.p(1, 5) { 32 } else { 8 };
 let n = r.range(1, hi);
            digs(r, b"0123456789abcdefABCDEF", n, &mut s);
        }
        1 => {
            s.push_str("0o");
            let hi = if r.p(1, 5) { 42 } else { 8 };
 let n = r.range(1, hi);
            digs(r, b"01234567", n, &mut s);
        }
        2 => {
            s.push_str("0b");
            let hi = if r.p(1, 5) { 127 } else { 12 };
 let n = r.range(1, hi);
            digs(r, b"01", n, &mut s);
        }
        3 | 4 => {
            let hi = if r.p(1, 5) { 39 } else { 6 };
 let n = r.range(1, hi);
            digs(r, b"0123456789", n, &mut s);
        }
        k => {
            let hi = if r.p(1, 8) { 50 } else { 6 };
 let n = r.range(1, hi);
            digs(r, b"0123456789", n, &mut s);
            if k != 5 {
                s.push('.');
                let hi = if r.p(1, 8) { 50 } else { 6 };
 let n = r.range(1, hi);
                digs(r, b"0123456789", n, &mut s);
            }
            if k != 6 {
                s.push(if r.p(1, 2) { 'e' } else { 'E' });
                match r.below(3) {
                    0 => s.push('-'),
                    1 => s.push('+'),
                    _ => {}
                }
                let hi = if r.p(1, 10) { 45 } else { 3 };
 let n = r.range(1, hi);
                digs(r, b"0123456789", n, &mut s);
            }
        }
    }
    s
}

pub fn rand_float(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[0.0, -0.0, 1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e16, 1e15, 123456789012345680.0, 1e-5, 0.1]),
        1 => f64::from_bits(r.next()),
        2 => (r.below(2000) as f64 - 1000.0) / 8.0,
        3 => (r.next() as i64) as f64,
        _ => { // no powi: its rounding is not the same under the interpreter
            let scale: f64 = format!("1e{}", r.below(40) as i32 - 20).parse().unwrap();
            (r.next() >> 11) as f64 / (1u64 << 53) as f64 * scale
        }
    }
}
pub fn rand_int(r: &mut Rng) -> i128 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, -1, i128::MAX, i128::MIN, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 + 1, i32::MIN as i128, 255, 256, -129]),
        1 => ((r.next() as u128) << 64 | r.next() as u128) as i128,
        2 => r.next() as i64 as i128,
        _ => r.below(2001) as i128 - 1000,
    }
}
/// A value independent of text (for the builder API).
pub fn rand_val(r: &mut Rng, weird: usize) -> Val {
    match r.below(8) {
        0 => Val::Int(rand_int(r)),
        1 => Val::Float(rand_float(r)),
        2 => Val::Bool(r.p(1, 2)),
        3 => Val::Null,
        _ => Val::Str(rand_string(r, weird)),
    }
}

/// Random document content (no text).
pub fn rand_doc(r: &mut Rng, weird: usize, depth: usize, max_nodes: usize) -> MDoc {
    let n = r.few(max_nodes + 1);
    (0..n).map(|_| rand_node(r, weird, depth, max_nodes)).collect()
}
pub fn rand_node(r: &mut Rng, weird: usize, depth: usize, max_nodes: usize) -> MNode {
    let ne = r.few(4);
    MNode {
        ty: if r.p(1, 5) { Some(rand_string(r, weird)) } else { None },
        name: rand_string(r, weird),
        entries: (0..ne).map(|_| rand_entry(r, weird)).collect(),
        children: if depth > 0 && r.p(2, 5) { Some(rand_doc(r, weird, depth - 1, max_nodes)) } else { None },
    }
}
pub fn rand_entry(r: &mut Rng, weird: usize) -> MEntry {
    MEntry {
        ty: if r.p(1, 5) { Some(rand_string(r, weird)) } else { None },
        name: if r.p(2, 5) { Some(rand_string(r, weird)) } else { None },
        value: rand_val(r, weird),
    }
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, st: Style) -> Gen<'a> {
        Gen { r, st, out: String::new(), ncomment: 0, comments: vec![], in_slash: 0 }
    }
    /// Generate a document; returns its text and its content.
    pub fn document(r: &'a mut Rng, st: Style) -> (String, MDoc) {
        let mut g = Gen::new(r, st);
        if g.wild(10) {
            g.out.push('\u{FEFF}');
        }
        let d = g.nodes(g.st.max_depth, false);
        (g.out, d)
    }
    pub fn wild(&mut self, scale: usize) -> bool {
        self.r.below(100) * 10 < self.st.wild * scale
    }
    fn nl(&mut self) {
        let mut s = if self.st.plain_newlines || !self.wild(10) { "\n" } else { *self.r.pick(&NEWLINES) };
        // do not glue "\r" and "\n" into one newline
        if s == "\n" && self.out.ends_with('\r') {
            s = "\r\n";
        }
        self.out.push_str(s);
    }
    fn comment_text(&mut self, block: bool) -> String {
        let mut t = String::new();
        if self.st.tag_comments {
            self.ncomment += 1;
            let tag = format!("cmt{:04}", self.ncomment);
            if self.in_slash == 0 {
                self.comments.push(tag.clone());
            }
            t.push_str(&tag);
        }
        let n = self.r.below(4);
        for _ in 0..n {
            match self.r.below(8) {
                0 => t.push_str(" foo"),
                1 => t.push_str("\""),
                2 => t.push_str("{"),
                3 => t.push_str(" }"),
                4 if block => t.push_str("/* in */"),
                5 if block && !self.st.tag_comments => t.push_str(if self.st.plain_newlines { "\n" } else { self.r.pick(&NEWLINES) }),
                5 => t.push_str("é "),
                6 if block => t.push_str("** "),
                6 => t.push_str("\\"),
                _ => t.push_str("x;"),
            }
        }
        t
    }
    fn block_comment(&mut self) {
        let t = self.comment_text(true);
        self.out.push_str("/*");
        self.out.push_str(&t);
        self.out.push_str("*/");
    }
    fn line_comment(&mut self, at_eof: bool) {
        let t = self.comment_text(false);
        self.out.push_str("//");
        self.out.push_str(&t);
        if !at_eof {
            self.nl();
        }
    }
    fn space(&mut self) {
        let s = if self.wild(5) { *self.r.pick(&SPACES) } else { " " };
        self.out.push_str(s);
    }
    /// one node-space
    fn sp1(&mut self) {
        loop {
            match self.r.below(12) {
                0 if self.st.comments && self.wild(15) => self.block_comment(),
                1 if self.wild(15) => {
                    // escline
                    if self.r.p(1, 2) {
                        self.space();
                    }
                    self.out.push('\\');
                    if self.r.p(1, 3) {
                        self.space();
                    }
                    if self.st.comments && self.r.p(1, 4) {
                        self.line_comment(false);
                    } else {
                        self.nl();
                    }
                    if self.r.p(1, 2) {
                        self.space();
                    }
                }
                2 if self.wild(15) => {
                    self.space();
                    self.space();
                }
                _ => self.space(),
            }
            if !self.wild(4) {
                return;
            }
        }
    }
    fn sp0(&mut self) {
        if self.wild(5) {
            self.sp1();
        }
    }
    fn line_space0(&mut self) {
        while self.wild(6) {
            match self.r.below(4) {
                0 => self.nl(),
                1 if self.st.comments => self.line_comment(false),
                _ => self.sp1(),
            }
        }
    }
    /// whether the text so far ends such that a bare word could glue to it
    fn ident_str(&mut self) -> String {
        let w = self.st.weird_str;
        let s = rand_string(self.r, w);
        self.emit_str(&s);
        s
    }
    pub fn emit_str(&mut self, s: &str) {
        for _ in 0..6 {
            let hi = if self.wild(8) { 5 } else { 2 };
            match self.r.below(hi) {
                0 | 1 if bare_ok(s) && self.r.p(4, 5) => {
                    self.out.push_str(s);
                    return;
                }
                2 => {
                    if self.emit_raw(s) {
                        return;
                    }
                }
                3 => {
                    if self.emit_multi(s) {
                        return;
                    }
                }
                4 => {
                    if self.emit_raw_multi(s) {
                        return;
                    }
                }
                _ => {
                    self.emit_quoted(s);
                    return;
                }
            }
        }
        self.emit_quoted(s);
    }
    fn esc_char(&mut self, c: char, out: &mut String) {
        let named = match c {
            '\\' => Some("\\\\"),
            '"' => Some("\\\""),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            ' ' => Some("\\s"),
            _ => None,
        };
        match named {
            Some(n) if !self.wild(5) => out.push_str(n),
            _ => {
                let u = c as u32;
                let mut h = match self.r.below(3) {
                    0 => format!("{u:x}"),
                    1 => format!("{u:X}"),
                    _ => format!("{u:04x}"),
                };
                while h.len() < 6 && self.r.p(1, 6) {
                    h.insert(0, '0');
                }
                out.push_str(&format!("\\u{{{h}}}"));
            }
        }
    }
    fn ws_escape(&mut self, out: &mut String) {
        out.push('\\');
        for _ in 0..self.r.range(1, 3) {
            if self.r.p(1, 2) {
                out.push_str(if self.wild(5) { self.r.pick(&SPACES) } else { " " });
            } else {
                out.push_str(if self.st.plain_newlines { "\n" } else { self.r.pick(&NEWLINES) });
            }
        }
    }
    fn emit_quoted(&mut self, s: &str) {
        let mut o = String::from("\"");
        let cs: Vec<char> = s.chars().collect();
        let mut after_wsesc = false;
        for &c in &cs {
            let must = c == '"' || c == '\\' || is_newline_char(c) || is_disallowed(c);
            if must || (self.wild(2)) || (after_wsesc && is_space(c)) {
                self.esc_char(c, &mut o);
            } else {
                o.push(c);
            }
            after_wsesc = false;
            if self.wild(2) {
                self.ws_escape(&mut o);
                after_wsesc = true;
            }
        }
        o.push('"');
        self.out.push_str(&o);
    }
    fn hashes_for(&mut self, s: &str) -> usize {
        let mut best = 0;
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'"' {
                let n = b[i + 1..].iter().take_while(|c| **c == b'#').count();
                best = best.max(n + 1);
            }
            i += 1;
        }
        best.max(1) + if self.wild(3) { self.r.below(3) } else { 0 }
    }
    fn emit_raw(&mut self, s: &str) -> bool {
        if s == "\"" || s.starts_with("\"\"") || s.chars().any(|c| is_newline_char(c) || is_disallowed(c)) {
            return false;
        }
        let h = "#".repeat(self.hashes_for(s));
        self.out.push_str(&format!("{h}\"{s}\"{h}"));
        true
    }
    fn prefix(&mut self) -> String {
        let mut p = String::new();
        for _ in 0..self.r.below(4) {
            p.push_str(if self.wild(5) { self.r.pick(&SPACES) } else { " " });
        }
        p
    }
    fn nl_in(&mut self, o: &mut String) {
        let mut s = if self.st.plain_newlines || !self.wild(10) { "\n" } else { *self.r.pick(&NEWLINES) };
        if s == "\n" && o.ends_with('\r') {
            s = "\r\n";
        }
        o.push_str(s);
    }
    fn emit_multi(&mut self, s: &str) -> bool {
        let prefix = self.prefix();
        let mut o = String::from("\"\"\"");
        self.nl_in(&mut o);
        if !(s.is_empty() && self.r.p(1, 2)) {
            for line in s.split('\n') {
                let cs: Vec<char> = line.chars().collect();
                let all_ws = cs.iter().all(|c| is_space(*c));
                if cs.is_empty() {
                    if self.r.p(1, 2) {
                        o.push_str(&prefix);
                    } else if self.wild(5) {
                        let p = self.prefix();
                        o.push_str(&p);
                    }
                } else {
                    o.push_str(&prefix);
                }
                let force = if all_ws && !cs.is_empty() { self.r.below(cs.len()) } else { usize::MAX };
                let mut after = false;
                for (i, &c) in cs.iter().enumerate() {
                    let quote_bad = c == '"' && (cs.get(i + 1) == Some(&'"') || i + 1 == cs.len());
                    let must = quote_bad || c == '\\' || is_newline_char(c) || is_disallowed(c) || i == force;
                    if must || self.wild(2) || (after && is_space(c)) {
                        self.esc_char(c, &mut o);
                    } else {
                        o.push(c);
                    }
                    after = false;
                    if self.wild(2) && i + 1 < cs.len() {
                        self.ws_escape(&mut o);
                        after = true;
                    }
                }
                self.nl_in(&mut o);
            }
        }
        o.push_str(&prefix);
        o.push_str("\"\"\"");
        self.out.push_str(&o);
        true
    }
    fn emit_raw_multi(&mut self, s: &str) -> bool {
        if s.chars().any(|c| (is_newline_char(c) && c != '\n') || is_disallowed(c)) {
            return false;
        }
        if s.split('\n').any(|l| !l.is_empty() && l.chars().all(is_space)) {
            return false;
        }
        let n = self.hashes_for(s);
        let h = "#".repeat(n);
        let prefix = self.prefix();
        let mut o = format!("{h}\"\"\"");
        self.nl_in(&mut o);
        if !(s.is_empty() && self.r.p(1, 2)) {
            for line in s.split('\n') {
                if !line.is_empty() {
                    o.push_str(&prefix);
                    o.push_str(line);
                } else if self.r.p(1, 2) {
                    o.push_str(&prefix);
                }
                self.nl_in(&mut o);
            }
        }
        o.push_str(&prefix);
        o.push_str("\"\"\"");
        o.push_str(&h);
        self.out.push_str(&o);
        true
    }
    fn ty(&mut self) -> Option<String> {
        if !self.st.types || !self.r.p(1, 6) {
            return None;
        }
        self.out.push('(');
        self.sp0();
        let s = self.ident_str();
        self.sp0();
        self.out.push(')');
        Some(s)
    }
    fn value(&mut self) -> (Option<String>, Val) {
        let ty = self.ty();
        if ty.is_some() {
            self.sp0();
        }
        (ty, self.scalar())
    }
    pub fn scalar(&mut self) -> Val {
        match self.r.below(9) {
            0..=2 => loop {
                let t = if self.wild(10) { rand_number_text(self.r) } else { self.r.below(1000).to_string() };
                let mut g = vec![];
                let v = number(&t, &mut g).expect("generated number");
                if g.is_empty() {
                    self.out.push_str(&t);
                    return v;
                }
            },
            3 => {
                let (t, v) = match self.r.below(6) {
                    0 => ("#true", Val::Bool(true)),
                    1 => ("#false", Val::Bool(false)),
                    2 => ("#null", Val::Null),
                    3 => ("#inf", Val::Float(f64::INFINITY)),
                    4 => ("#-inf", Val::Float(f64::NEG_INFINITY)),
                    _ => ("#nan", Val::Float(f64::NAN)),
                };
                self.out.push_str(t);
                v
            }
            _ => Val::Str(self.ident_str()),
        }
    }
    fn entry(&mut self) -> MEntry {
        if self.r.p(2, 5) {
            let name = if self.r.p(1, 3) {
                let s = (*self.r.pick(&["a", "b", "key"])).to_string();
                self.emit_str(&s);
                s
            } else {
                self.ident_str()
            };
            self.sp0();
            self.out.push('=');
            self.sp0();
            let (ty, value) = self.value();
            MEntry { ty, name: Some(name), value }
        } else {
            let (ty, value) = self.value();
            MEntry { ty, name: None, value }
        }
    }
    pub fn nodes(&mut self, depth: usize, inside: bool) -> MDoc {
        let mut d = vec![];
        let n = if self.st.big { self.r.range(3, 12) } else { self.r.below(self.st.max_nodes + 1) };
        if inside && self.r.p(2, 3) {
            self.nl();
        }
        for k in 0..n {
            self.line_space0();
            let slashed = self.st.slashdash && self.wild(2);
            if slashed {
                self.out.push_str("/-");
                self.line_space0();
                self.in_slash += 1;
            }
            let node = self.node(depth);
            if slashed {
                self.in_slash -= 1;
            } else {
                d.push(node);
            }
            self.sp0();
            let last = k + 1 == n;
            if last && self.r.p(1, 4) {
                if !inside && self.st.comments && self.r.p(1, 4) {
                    self.line_comment(true);
                }
                return d;
            }
            match self.r.below(8) {
                0 if self.st.comments => self.line_comment(false),
                1 | 2 => self.out.push(';'),
                _ => self.nl(),
            }
        }
        self.line_space0();
        d
    }
    fn node(&mut self, depth: usize) -> MNode {
        let ty = self.ty();
        if ty.is_some() {
            self.sp0();
        }
        let name = if self.r.p(1, 4) {
            let s = (*self.r.pick(&["-", "node", "foo", "bar"])).to_string();
            self.emit_str(&s);
            s
        } else {
            self.ident_str()
        };
        let mut entries = vec![];
        for _ in 0..self.r.below(4) {
            self.sp1();
            if self.st.slashdash && self.wild(3) {
                self.out.push_str("/-");
                self.line_space0();
                self.in_slash += 1;
                self.entry();
                self.in_slash -= 1;
                self.sp1();
            }
            entries.push(self.entry());
        }
        if self.st.slashdash && self.wild(2) {
            self.sp1();
            self.out.push_str("/-");
            self.line_space0();
            self.in_slash += 1;
            self.entry();
            self.in_slash -= 1;
        }
        let mut children = None;
        if depth > 0 {
            while self.st.slashdash && self.wild(1) {
                self.slashed_children(depth);
            }
            if self.r.p(1, 3) {
                self.sp1();
                self.out.push('{');
                children = Some(self.nodes(depth - 1, true));
                self.out.push('}');
            }
            while self.st.slashdash && self.wild(1) {
                self.slashed_children(depth);
            }
        }
        MNode { ty, name, entries, children }
    }
    fn slashed_children(&mut self, depth: usize) {
        self.sp1();
        self.out.push_str("/-");
        self.line_space0();
        self.in_slash += 1;
        self.out.push('{');
        self.nodes(depth - 1, true);
        self.out.push('}');
        self.in_slash -= 1;
    }
}

/// Tokens for exhaustive and random token sequences.
pub const TOKENS: [&str; 44] = [
    " ", "\n", ";", "{", "}", "a", "1", "\"b\"", "=", "/-", "(", ")", "(t)", "#true", "//c\n", "/*c*/", "\\\n", "-",
    "\\", "#\"r\"#", "\"\"\"\nm\n\"\"\"", "#", "\"", "true", ".", "+", "0x", "#\"\"\"\nm\n\"\"\"#", "inf", "-inf", "#inf", "1.5",
    "1e", "/*", "*/", "\u{FEFF}", "/", "\r\n", "[", ",", "\u{2028}", "é", "_", "a=1",
];
/// The first N tokens are enumerated exhaustively.
pub const CORE_TOKENS: usize = 20;

pub fn token_soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(&TOKENS));
    }
    s
}

/// String-literal soup: stresses quoted/raw/multi-line lexing.
pub const STRTOKS: [&str; 30] = [
    "\"", "\"\"\"", "#", "##", "\n", "\r\n", " ", "  ", "\t", "\\", "\\\n", "\\ ", "\\n", "\\\"", "\\u{41}", "\\u{", "}",
    "a", "é", "\\s", "\u{2028}", "\u{85}", "\\\\", "\\u{D800}", "\\/", "\u{7F}", "\u{A0}", "\"\"", "\"#", "\"\"\"#",
];
pub fn string_soup(r: &mut Rng) -> String {
    let mut s = String::from("n ");
    let open = *r.pick(&["\"", "\"\"\"\n", "#\"", "#\"\"\"\n", "##\"\"\"\n", "\"\"\"", ""]);
    s.push_str(open);
    for _ in 0..r.range(1, 10) {
        s.push_str(r.pick(&STRTOKS));
    }
    let close = *r.pick(&["\"", "\n\"\"\"", "\"#", "\n\"\"\"#", "\n \"\"\"", "\n  \"\"\"##", ""]);
    s.push_str(close);
    s
}

pub const NUMCHARS: &[u8] = b"0123456789..__eE+-xXoObBaf";
pub fn number_soup(r: &mut Rng) -> String {
    let mut s = String::from("n ");
    if r.p(1, 2) {
        s.push_str(&rand_number_text(r));
        if r.p(1, 2) {
            return s;
        }
        // perturb one character
        let mut c: Vec<char> = s.chars().collect();
        let i = r.range(2, c.len() - 1);
        match r.below(3) {
            0 => c[i] = *r.pick(NUMCHARS) as char,
            1 => c.insert(i, *r.pick(NUMCHARS) as char),
            _ => {
                c.remove(i);
            }
        }
        return c.into_iter().collect();
    }
    for _ in 0..r.range(1, 7) {
        s.push(*r.pick(NUMCHARS) as char);
    }
    s
}

pub fn mutate(r: &mut Rng, base: &str, other: &str) -> String {
    let mut c: Vec<char> = base.chars().collect();
    let o: Vec<char> = other.chars().collect();
    for _ in 0..r.range(1, 3) {
        let n = c.len();
        let i = if n == 0 { 0 } else { r.below(n + 1) };
        match r.below(9) {
            0 if n > 0 => {
                let i = i.min(n - 1);
                let j = (i + r.range(1, 6)).min(n);
                c.drain(i..j);
            }
            1 => c.insert(i, rand_char(r)),
            2 => {
                let t = *r.pick(&TOKENS);
                for (k, x) in t.chars().enumerate() {
                    c.insert(i + k, x);
                }
            }
            3 if n > 0 => {
                let i = i.min(n - 1);
                c[i] = rand_char(r);
            }
            4 if n > 1 => {
                let i = i.min(n - 1);
                let j = (i + r.range(1, 12)).min(n);
                let seg: Vec<char> = c[i..j].to_vec();
                let at = r.below(n + 1);
                for (k, x) in seg.into_iter().enumerate() {
                    c.insert(at + k, x);
                }
            }
            5 if !o.is_empty() => {
                let a = r.below(o.len());
                let b = (a + r.range(1, 20)).min(o.len());
                for (k, x) in o[a..b].iter().enumerate() {
                    c.insert(i + k, *x);
                }
            }
            6 if n > 0 => {
                c.truncate(i);
            }
            7 if n > 1 => {
                let i = i.min(n - 1);
                let j = r.below(n);
                c.swap(i, j);
            }
            _ => {
                let t = *r.pick(&["\"\"\"", "\\", "/-", "/*", "#", " \\\n ", "{", "}", "\n", ";", "("]);
                for (k, x) in t.chars().enumerate() {
                    c.insert(i + k, x);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// One construct far beyond the usual size: some limit may hide anywhere.
pub fn large(r: &mut Rng) -> String {
    let n = r.log(16, 6000);
    let many = |r: &mut Rng, n: usize, xs: &[&str]| -> String { (0..n).map(|_| *r.pick(xs)).collect() };
    let one = r.p(1, 3);
    // the same thing over and over, or a mixture
    let reps = |r: &mut Rng, n: usize, xs: &[&str]| -> String {
        if one {
            xs[r.below(xs.len())].repeat(n)
        } else {
            many(r, n, xs)
        }
    };
    let core = match r.below(20) {
        0 | 1 => reps(r, n, &["a\n", "b 1 k=2;", "(t)\"c d\" x {y;}\n", "é /*c*/ #true\n", "d // e\n", "\n"]),
        2 => format!("/-s {{}}\nn{}\n/-m", reps(r, n, &[" 1", " k=v", " j=\"\\n\"", " (t)u", " /*c*/ /-0 w", " /-l=1 z", " \\\n #null", " 1.5"])),
        3 => format!("p {{\n{}}}\nq", reps(r, n, &["  a\n", "  b {c;}\n", "\t- 1;", "  /-x y\n", "  // c\n", "(u)v\n"])),
        4 => format!("s \"{}\" t", reps(r, n, &["x", "é", "\\n", "\\u{1F600}", "\\\n   ", "\u{1F600}", " ", "'", "\\\""])),
        5 => format!("s \"\"\"\n{}  \"\"\" t", reps(r, n, &["  line\n", "    more\n", "\n", "  \\t\"\"q\r\n", "  \\\n  x\n", "  é\u{2028}", "   \n"])),
        6 => {
            let h = "#".repeat(if r.p(1, 2) { 1 } else { n.min(500) });
            format!("s {h}\"{}\"{h} t", reps(r, n, &["x", "\\", "é", " ", "/*", "// ", "\u{1F600}"]))
        }
        7 => {
            let h = "#".repeat(r.log(1, 40));
            format!("s {h}\"\"\"\n{}  \"\"\"{h} t", reps(r, n, &["  line\n", "    \\more\n", "\n", "  \"\"q\r\n", "  é\u{2028}"]))
        }
        8 => {
            let id = reps(r, n, &["a", "b-", "é", "\u{1F600}", ".", "_"]);
            match r.below(5) {
                0 => format!("x{id} y"),
                1 => format!("n x{id}=1"),
                2 => format!("(x{id})n"),
                3 => format!("n (x{id})1"),
                _ => format!("n x{id} y"),
            }
        }
        9 => format!("n {}{} y", r.pick(&["0.", "1.", "-0.", "1e", "0", "1_", "0x0", "0o0", "0b0", "1.5E-"]), reps(r, n.min(400), &["0", "1_", "0_", "_", "1"])),
        10 => format!("n {}{}.{}e{} y", r.pick(&["", "-", "+"]), 1 + r.below(9), reps(r, n.min(400), &["0", "9", "12"]), r.below(700) as i32 - 350),
        11 => format!("a /*{}*/ b", reps(r, n, &["x", " ", "\n", "é", "* /", "/ *"])),
        12 => format!("a {}b {}c{}\nd", reps(r, n, &["/*c*/", " ", "\t", "\u{3000}"]), reps(r, n.min(300), &["\\\n", " \\ // c\r\n"]), reps(r, n, &[" ", "/**/"])),
        13 => format!("a // {}\nb", reps(r, n, &["x", " ", "é", "/-", "\\", "\"", "{"])),
        14 => format!("{}a{}b", reps(r, n, &["\n", " ", "// c\n", "/*c*/\n", "\r\n"]), reps(r, n, &["\n", "\n  ", "// c\n", "\u{85}", "/-x\n", "\n;"])),
        15 => format!("a{} {{}} b;c", reps(r, n.min(2000), &[" /-{}", " /-{ x; }", " /- { /-y\n z }"])),
        16 => format!("{}a\n{}", reps(r, n.min(2000), &["/-x\n", "/-y 1 {}\n", "/-(t)z k=1;"]), reps(r, n.min(2000), &["/-x\n", "/-y 1 {}\n"])),
        17 => {
            let d = r.log(4, 120);
            format!("{}{}", "a 1 {\n".repeat(d), "}\n".repeat(d))
        }
        18 => format!("a {}{} b", "/*".repeat(n.min(150)), "*/".repeat(n.min(150))),
        _ => format!("(  {} t {} ) {} n k {} = {} 1", reps(r, n, &[" ", "/*c*/"]), reps(r, n, &[" ", "\\\n"]), reps(r, n, &[" ", "\t"]), reps(r, n, &[" ", "/**/"]), reps(r, n, &[" ", "\\\n "])),
    };
    let wrap = match r.below(8) {
        0 => format!("w {{\n{core}\n}}\n"),
        1 => format!("f 1 k=2\n{core}\nl {{ z }}\n"),
        2 => format!("{core}\n)"),
        3 => format!("v 0x\n{core}"),
        _ => core,
    };
    if r.p(1, 8) {
        mutate(r, &wrap, "a 1 \"x\" {}")
    } else {
        wrap
    }
}
