//! Independent reference recogniser/evaluator for KDL 2.0.0.
//!
//! Written from the published grammar (the grammar comments in the code under
//! test quote the same rules), sharing no code with it. Three-valued: Accept,
//! Reject, and "gray" for inputs whose status the specification leaves open or
//! where the library documents a leniency; oracles never judge gray inputs.

#[derive(Clone, Debug)]
pub enum Val {
    Str(String),
    Int(i128),
    /// An integer that does not fit i128.
    BigInt,
    Float(f64),
    Bool(bool),
    Null,
}

impl Val {
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::Int(a), Val::Int(b)) => a == b,
            (Val::BigInt, Val::BigInt) => true,
            (Val::Float(a), Val::Float(b)) => {
                (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
            }
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Null, Val::Null) => true,
            _ => false,
        }
    }
}

pub type Span = (usize, usize);

#[derive(Clone, Debug)]
pub struct RIdent {
    pub value: String,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub struct REntry {
    pub ty: Option<RIdent>,
    pub name: Option<RIdent>,
    pub value: Val,
    pub vspan: Span,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub struct RNode {
    pub ty: Option<RIdent>,
    pub name: RIdent,
    pub entries: Vec<REntry>,
    pub children: Option<RDoc>,
    /// From the first character of type/name to the end of the last real part
    /// (name, entry, or children block).
    pub core: Span,
    /// Where the terminator starts (or the end of input / closing brace).
    pub end: usize,
    /// span of the `{...}` block
    pub block: Option<Span>,
}

#[derive(Clone, Debug, Default)]
pub struct RDoc {
    pub nodes: Vec<RNode>,
}

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub gray: Vec<&'static str>,
    /// Comment spans outside strings (single-line ones exclude the newline).
    pub comments: Vec<Span>,
    /// Slashdashed elements: from `/-` to the end of the element.
    pub slashed: Vec<Span>,
    pub max_depth: usize,
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Accept(RDoc, Info),
    Reject(usize, &'static str, Info),
}

impl Verdict {
    pub fn is_gray(&self) -> bool {
        match self {
            Verdict::Accept(_, i) => !i.gray.is_empty(),
            Verdict::Reject(_, _, i) => !i.gray.is_empty(),
        }
    }
    pub fn gray_only(&self, names: &[&str]) -> bool {
        let i = match self {
            Verdict::Accept(_, i) => i,
            Verdict::Reject(_, _, i) => i,
        };
        i.gray.iter().all(|g| names.contains(g))
    }
    pub fn info(&self) -> &Info {
        match self {
            Verdict::Accept(_, i) => i,
            Verdict::Reject(_, _, i) => i,
        }
    }
}

pub const G_NOSPACE_CHILDREN: &str = "children block not preceded by node-space";
pub const G_COMMENT_DISALLOWED: &str = "disallowed code point inside a comment";
pub const G_BIGINT: &str = "integer outside i128";
pub const G_RADIX_UPPER: &str = "uppercase radix prefix";
pub const G_RAW_CLOSE: &str = "raw multi-line string with an earlier closing candidate";
pub const G_V1MARK: &str = "kdl-version 1 marker";

struct Rej(usize, &'static str);
type R<T> = Result<T, Rej>;

pub fn is_disallowed(c: char) -> bool {
    let u = c as u32;
    u <= 0x08
        || (0x0E..=0x1F).contains(&u)
        || u == 0x7F
        || u == 0x200E
        || u == 0x200F
        || (0x202A..=0x202E).contains(&u)
        || (0x2066..=0x2069).contains(&u)
        || u == 0xFEFF
}

pub fn is_newline_char(c: char) -> bool {
    matches!(c as u32, 0x0A | 0x0D | 0x85 | 0x0B | 0x0C | 0x2028 | 0x2029)
}

pub fn is_space(c: char) -> bool {
    let u = c as u32;
    matches!(u, 0x09 | 0x20 | 0xA0 | 0x1680 | 0x202F | 0x205F | 0x3000) || (0x2000..=0x200A).contains(&u)
}

pub fn is_ident_char(c: char) -> bool {
    !(is_space(c)
        || is_newline_char(c)
        || is_disallowed(c)
        || matches!(c, '\\' | '/' | '(' | ')' | '{' | '}' | ';' | '[' | ']' | '"' | '#' | '='))
}

/// Is `w` (non-empty, all identifier characters) a legal bare identifier?
pub fn bare_ok(w: &str) -> bool {
    if w.is_empty() || !w.chars().all(is_ident_char) {
        return false;
    }
    if matches!(w, "true" | "false" | "null" | "inf" | "-inf" | "nan") {
        return false;
    }
    let c: Vec<char> = w.chars().collect();
    let mut i = 0;
    if c[0] == '+' || c[0] == '-' {
        i = 1;
        if c.len() == 1 {
            return true;
        }
    }
    if c[i].is_ascii_digit() {
        return false;
    }
    if c[i] == '.' {
        if let Some(d) = c.get(i + 1) {
            if d.is_ascii_digit() {
                return false;
            }
        }
    }
    true
}

/// Evaluate a number token. None = not a number.
pub fn number(w: &str, gray: &mut Vec<&'static str>) -> Option<Val> {
    let (neg, rest) = match w.as_bytes().first()? {
        b'+' => (false, &w[1..]),
        b'-' => (true, &w[1..]),
        _ => (false, w),
    };
    let rb = rest.as_bytes();
    if rb.len() >= 2 && rb[0] == b'0' && matches!(rb[1], b'x' | b'X' | b'o' | b'O' | b'b' | b'B') {
        let radix = match rb[1] {
            b'x' | b'X' => 16,
            b'o' | b'O' => 8,
            _ => 2,
        };
        let d = &rest[2..];
        let mut first = true;
        let mut acc: Option<u128> = Some(0);
        for c in d.chars() {
            if c == '_' {
                if first {
                    return None;
                }
                continue;
            }
            let v = if c.is_ascii() { c.to_digit(radix)? } else { return None };
            first = false;
            acc = acc
                .and_then(|a| a.checked_mul(radix as u128))
                .and_then(|a| a.checked_add(v as u128));
        }
        if first {
            return None;
        }
        if rb[1].is_ascii_uppercase() {
            gray.push(G_RADIX_UPPER);
        }
        return Some(fit(acc, neg, gray));
    }
    // decimal
    let mut i = 0;
    let n = rb.len();
    let int = |i: &mut usize| -> bool {
        if *i < n && rb[*i].is_ascii_digit() {
            while *i < n && (rb[*i].is_ascii_digit() || rb[*i] == b'_') {
                *i += 1;
            }
            true
        } else {
            false
        }
    };
    if !int(&mut i) {
        return None;
    }
    let mut is_float = false;
    if i < n && rb[i] == b'.' {
        i += 1;
        is_float = true;
        if !int(&mut i) {
            return None;
        }
    }
    if i < n && (rb[i] == b'e' || rb[i] == b'E') {
        i += 1;
        is_float = true;
        if i < n && (rb[i] == b'+' || rb[i] == b'-') {
            i += 1;
        }
        if !int(&mut i) {
            return None;
        }
    }
    if i != n {
        return None;
    }
    if is_float {
        let t: String = w.chars().filter(|c| *c != '_').collect();
        return Some(Val::Float(t.parse::<f64>().expect("ref float")));
    }
    let mut acc: Option<u128> = Some(0);
    for b in rb.iter().filter(|b| **b != b'_') {
        acc = acc
            .and_then(|a| a.checked_mul(10))
            .and_then(|a| a.checked_add((b - b'0') as u128));
    }
    Some(fit(acc, neg, gray))
}

fn fit(acc: Option<u128>, neg: bool, gray: &mut Vec<&'static str>) -> Val {
    match acc {
        Some(a) if !neg && a <= i128::MAX as u128 => Val::Int(a as i128),
        Some(a) if neg && a <= i128::MAX as u128 => Val::Int(-(a as i128)),
        Some(a) if neg && a == 1u128 << 127 => Val::Int(i128::MIN),
        _ => {
            gray.push(G_BIGINT);
            Val::BigInt
        }
    }
}

struct P<'a> {
    s: &'a str,
    i: usize,
    info: Info,
    depth: usize,
}

pub fn parse_document(s: &str) -> Verdict {
    let mut p = P { s, i: 0, info: Info::default(), depth: 0 };
    let r = p.document();
    match r {
        Ok(d) => Verdict::Accept(d, p.info),
        Err(Rej(pos, why)) => Verdict::Reject(pos, why, p.info),
    }
}

/// A lone string token (identifier position): whole input must be one string.
pub fn parse_identifier(s: &str) -> Verdict {
    let mut p = P { s, i: 0, info: Info::default(), depth: 0 };
    let r = p.string().and_then(|id| {
        if p.i == s.len() {
            Ok(RDoc {
                nodes: vec![RNode {
                    ty: None,
                    core: id.span,
                    end: p.i,
                    name: id,
                    entries: vec![],
                    children: None,
                    block: None,
                }],
            })
        } else {
            Err(Rej(p.i, "trailing text"))
        }
    });
    match r {
        Ok(d) => Verdict::Accept(d, p.info),
        Err(Rej(pos, why)) => Verdict::Reject(pos, why, p.info),
    }
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn at(&self, t: &str) -> bool {
        self.rest().starts_with(t)
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.at(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn rej<T>(&self, why: &'static str) -> R<T> {
        Err(Rej(self.i, why))
    }
    fn gray(&mut self, g: &'static str) {
        if !self.info.gray.contains(&g) {
            self.info.gray.push(g);
        }
    }
    fn newline(&mut self) -> bool {
        if self.eat("\r\n") {
            return true;
        }
        match self.peek() {
            Some(c) if is_newline_char(c) => {
                self.i += c.len_utf8();
                true
            }
            _ => false,
        }
    }
    fn block_comment(&mut self) -> R<bool> {
        if !self.at("/*") {
            return Ok(false);
        }
        let start = self.i;
        self.i += 2;
        let mut depth = 1;
        while depth > 0 {
            if self.eat("*/") {
                depth -= 1;
            } else if self.eat("/*") {
                depth += 1;
            } else {
                match self.peek() {
                    None => return self.rej("unterminated block comment"),
                    Some(c) => {
                        if is_disallowed(c) {
                            self.gray(G_COMMENT_DISALLOWED);
                        }
                        self.i += c.len_utf8();
                    }
                }
            }
        }
        self.info.comments.push((start, self.i));
        Ok(true)
    }
    fn line_comment(&mut self) -> bool {
        if !self.at("//") {
            return false;
        }
        let start = self.i;
        self.i += 2;
        loop {
            match self.peek() {
                None => break,
                Some(c) if is_newline_char(c) => break,
                Some(c) => {
                    if is_disallowed(c) {
                        self.gray(G_COMMENT_DISALLOWED);
                    }
                    self.i += c.len_utf8();
                }
            }
        }
        self.info.comments.push((start, self.i));
        self.newline();
        true
    }
    fn ws(&mut self) -> R<bool> {
        match self.peek() {
            Some(c) if is_space(c) => {
                self.i += c.len_utf8();
                Ok(true)
            }
            Some('/') => self.block_comment(),
            _ => Ok(false),
        }
    }
    fn node_space(&mut self) -> R<bool> {
        let mut any = false;
        loop {
            if self.ws()? {
                any = true;
            } else if self.peek() == Some('\\') {
                self.i += 1;
                while self.ws()? {}
                if self.line_comment() || self.newline() || self.i == self.s.len() {
                    any = true;
                } else {
                    return self.rej("backslash not followed by a line end");
                }
            } else {
                return Ok(any);
            }
        }
    }
    fn line_space(&mut self) -> R<()> {
        loop {
            if self.node_space()? || self.newline() || self.line_comment() {
                continue;
            }
            return Ok(());
        }
    }
    fn document(&mut self) -> R<RDoc> {
        self.eat("\u{FEFF}");
        {
            let t = self.rest();
            if t.starts_with("/-") {
                let t2 = t[2..].trim_start_matches(is_space);
                if let Some(t3) = t2.strip_prefix("kdl-version") {
                    if t3.trim_start_matches(is_space).starts_with('1') {
                        self.gray(G_V1MARK);
                    }
                }
            }
        }
        let d = self.nodes(false)?;
        if self.i != self.s.len() {
            return self.rej("text after document");
        }
        Ok(d)
    }
    fn nodes(&mut self, inside: bool) -> R<RDoc> {
        let mut d = RDoc::default();
        loop {
            self.line_space()?;
            match self.peek() {
                None => return Ok(d),
                Some('}') if inside => return Ok(d),
                _ => {}
            }
            let st = self.i;
            let slashed = if self.eat("/-") {
                self.line_space()?;
                true
            } else {
                false
            };
            let n = self.base_node()?;
            if slashed {
                self.info.slashed.push((st, n.core.1));
            } else {
                d.nodes.push(n);
            }
            if self.i == self.s.len() {
                continue;
            }
            if inside && self.peek() == Some('}') {
                return Ok(d);
            }
            if self.eat(";") || self.newline() || self.line_comment() {
                continue;
            }
            return self.rej("expected node terminator");
        }
    }
    fn ty(&mut self) -> R<Option<RIdent>> {
        if !self.eat("(") {
            return Ok(None);
        }
        self.node_space()?;
        let id = self.string()?;
        self.node_space()?;
        if !self.eat(")") {
            return self.rej("type annotation not closed");
        }
        Ok(Some(id))
    }
    fn base_node(&mut self) -> R<RNode> {
        let start = self.i;
        let ty = self.ty()?;
        if ty.is_some() {
            self.node_space()?;
        }
        let name = self.string()?;
        let mut last = self.i;
        let mut entries = vec![];
        let mut children = None;
        let mut block = None;
        let mut entries_done = false;
        loop {
            let sp = self.node_space()?;
            match self.peek() {
                None | Some(';') | Some('}') => break,
                Some(c) if is_newline_char(c) => break,
                _ => {}
            }
            if self.at("//") {
                break;
            }
            if self.at("{") {
                if !sp {
                    self.gray(G_NOSPACE_CHILDREN);
                }
                if children.is_some() {
                    return self.rej("second children block");
                }
                entries_done = true;
                let b = self.i;
                children = Some(self.children()?);
                block = Some((b, self.i));
                last = self.i;
                continue;
            }
            if self.at("/-") {
                let st = self.i;
                // `node/-{}`: the grammar wants node-space here too.
                self.i += 2;
                self.line_space()?;
                if !sp {
                    if self.at("{") {
                        self.gray(G_NOSPACE_CHILDREN);
                    } else {
                        return self.rej("slashdash not preceded by space");
                    }
                }
                if self.at("{") {
                    entries_done = true;
                    self.children()?;
                } else {
                    if entries_done {
                        return self.rej("entry after children block");
                    }
                    self.entry()?;
                }
                self.info.slashed.push((st, self.i));
                continue;
            }
            if entries_done {
                return self.rej("entry after children block");
            }
            if !sp {
                return self.rej("entry not preceded by space");
            }
            let e = self.entry()?;
            entries.push(e);
            last = self.i;
        }
        Ok(RNode { ty, name, entries, children, core: (start, last), end: self.i, block })
    }
    fn children(&mut self) -> R<RDoc> {
        self.i += 1;
        self.depth += 1;
        if self.depth > self.info.max_depth {
            self.info.max_depth = self.depth;
        }
        let d = self.nodes(true)?;
        if !self.eat("}") {
            return self.rej("children block not closed");
        }
        self.depth -= 1;
        Ok(d)
    }
    fn entry(&mut self) -> R<REntry> {
        let start = self.i;
        if self.at("(") {
            let mut e = self.value()?;
            e.span = (start, self.i);
            return Ok(e);
        }
        let (v, vspan) = self.scalar()?;
        if let Val::Str(key) = &v {
            let save = self.i;
            let nc = self.info.comments.len();
            self.node_space()?;
            if self.eat("=") {
                self.node_space()?;
                let mut e = self.value()?;
                e.name = Some(RIdent { value: key.clone(), span: vspan });
                e.span = (start, self.i);
                return Ok(e);
            }
            self.i = save;
            self.info.comments.truncate(nc);
        }
        Ok(REntry { ty: None, name: None, value: v, vspan, span: (start, self.i) })
    }
    fn value(&mut self) -> R<REntry> {
        let start = self.i;
        let ty = self.ty()?;
        if ty.is_some() {
            self.node_space()?;
        }
        let (v, vspan) = self.scalar()?;
        Ok(REntry { ty, name: None, value: v, vspan, span: (start, self.i) })
    }
    fn string(&mut self) -> R<RIdent> {
        let pos = self.i;
        let (v, span) = self.scalar()?;
        match v {
            Val::Str(value) => Ok(RIdent { value, span }),
            _ => Err(Rej(pos, "expected a string")),
        }
    }
    fn scalar(&mut self) -> R<(Val, Span)> {
        let start = self.i;
        let v = match self.peek() {
            None => return self.rej("expected a value"),
            Some('"') => Val::Str(self.quoted()?),
            Some('#') => {
                let n = self.rest().bytes().take_while(|b| *b == b'#').count();
                if self.s.as_bytes().get(self.i + n) == Some(&b'"') {
                    Val::Str(self.raw(n)?)
                } else if n == 1 {
                    self.i += 1;
                    let w = self.run();
                    match w {
                        "true" => Val::Bool(true),
                        "false" => Val::Bool(false),
                        "null" => Val::Null,
                        "inf" => Val::Float(f64::INFINITY),
                        "-inf" => Val::Float(f64::NEG_INFINITY),
                        "nan" => Val::Float(f64::NAN),
                        _ => return Err(Rej(start, "unknown keyword")),
                    }
                } else {
                    return self.rej("stray hashes");
                }
            }
            Some(c) if is_ident_char(c) => {
                let w = self.run();
                let mut g = vec![];
                if let Some(v) = number(w, &mut g) {
                    for x in g {
                        self.gray(x);
                    }
                    v
                } else if bare_ok(w) {
                    Val::Str(w.to_string())
                } else {
                    return Err(Rej(start, "bad bare word"));
                }
            }
            Some(_) => return self.rej("unexpected character"),
        };
        Ok((v, (start, self.i)))
    }
    fn run(&mut self) -> &'a str {
        let st = self.i;
        while let Some(c) = self.peek() {
            if !is_ident_char(c) {
                break;
            }
            self.i += c.len_utf8();
        }
        &self.s[st..self.i]
    }
    /// After a backslash (already consumed). Ok(None) = whitespace escape.
    fn escape(&mut self) -> R<Option<char>> {
        let c = match self.peek() {
            None => return self.rej("backslash at end"),
            Some(c) => c,
        };
        let simple = match c {
            '\\' => Some('\\'),
            '"' => Some('"'),
            'b' => Some('\u{8}'),
            'f' => Some('\u{c}'),
            'n' => Some('\n'),
            'r' => Some('\r'),
            't' => Some('\t'),
            's' => Some(' '),
            _ => None,
        };
        if let Some(x) = simple {
            self.i += 1;
            return Ok(Some(x));
        }
        if c == 'u' {
            self.i += 1;
            if !self.eat("{") {
                return self.rej("bad unicode escape");
            }
            let st = self.i;
            while self.i < self.s.len() && self.s.as_bytes()[self.i].is_ascii_hexdigit() {
                self.i += 1;
            }
            let h = &self.s[st..self.i];
            if h.is_empty() || h.len() > 6 || !self.eat("}") {
                return self.rej("bad unicode escape");
            }
            return match char::from_u32(u32::from_str_radix(h, 16).unwrap()) {
                Some(x) => Ok(Some(x)),
                None => self.rej("escape is not a scalar value"),
            };
        }
        if is_space(c) || is_newline_char(c) {
            while let Some(c) = self.peek() {
                if is_space(c) || is_newline_char(c) {
                    self.i += c.len_utf8();
                } else {
                    break;
                }
            }
            return Ok(None);
        }
        self.rej("unknown escape")
    }
    fn quoted(&mut self) -> R<String> {
        if self.at("\"\"\"") {
            self.i += 3;
            if !self.newline() {
                return self.rej("triple quote not followed by newline");
            }
            return self.multiline();
        }
        self.i += 1;
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return self.rej("unterminated string"),
                Some('"') => {
                    self.i += 1;
                    return Ok(out);
                }
                Some('\\') => {
                    self.i += 1;
                    if let Some(c) = self.escape()? {
                        out.push(c);
                    }
                }
                Some(c) if is_newline_char(c) => return self.rej("newline in string"),
                Some(c) if is_disallowed(c) => return self.rej("disallowed code point in string"),
                Some(c) => {
                    out.push(c);
                    self.i += c.len_utf8();
                }
            }
        }
    }
    fn multiline(&mut self) -> R<String> {
        // (char, is_escaped)
        let mut lines: Vec<Vec<(char, bool)>> = vec![vec![]];
        loop {
            if self.at("\"\"\"") {
                self.i += 3;
                break;
            }
            if self.newline() {
                lines.push(vec![]);
                continue;
            }
            match self.peek() {
                None => return self.rej("unterminated multi-line string"),
                Some('\\') => {
                    self.i += 1;
                    if let Some(c) = self.escape()? {
                        lines.last_mut().unwrap().push((c, true));
                    }
                }
                Some(c) if is_disallowed(c) => return self.rej("disallowed code point in string"),
                Some(c) => {
                    lines.last_mut().unwrap().push((c, false));
                    self.i += c.len_utf8();
                }
            }
        }
        self.dedent(lines)
    }
    fn dedent(&mut self, mut lines: Vec<Vec<(char, bool)>>) -> R<String> {
        let last = lines.pop().unwrap();
        if !last.iter().all(|(c, e)| !*e && is_space(*c)) {
            return self.rej("text before closing triple quote");
        }
        let mut out = String::new();
        for (k, l) in lines.iter().enumerate() {
            if k > 0 {
                out.push('\n');
            }
            if l.iter().all(|(c, e)| !*e && is_space(*c)) {
                continue;
            }
            if l.len() < last.len() || l[..last.len()] != last[..] {
                return self.rej("line does not start with the closing line's prefix");
            }
            for (c, _) in &l[last.len()..] {
                out.push(*c);
            }
        }
        Ok(out)
    }
    fn raw(&mut self, n: usize) -> R<String> {
        self.i += n;
        let hashes = "#".repeat(n);
        if self.at("\"\"\"") {
            let save = self.i;
            self.i += 3;
            if self.newline() {
                let close = format!("\"\"\"{hashes}");
                let mut lines: Vec<Vec<(char, bool)>> = vec![vec![]];
                loop {
                    if self.eat(&close) {
                        break;
                    }
                    if self.newline() {
                        lines.push(vec![]);
                        continue;
                    }
                    match self.peek() {
                        None => return self.rej("unterminated raw multi-line string"),
                        Some(c) if is_disallowed(c) => {
                            return self.rej("disallowed code point in raw string")
                        }
                        Some(c) => {
                            lines.last_mut().unwrap().push((c, false));
                            self.i += c.len_utf8();
                        }
                    }
                }
                let after = self.i;
                let r = self.dedent(lines);
                if r.is_err() && self.s[after..].contains(&close) {
                    self.gray(G_RAW_CLOSE);
                }
                return r;
            }
            self.i = save;
        }
        self.i += 1; // opening quote
        let close = format!("\"{hashes}");
        let st = self.i;
        loop {
            if self.at(&close) {
                let body = &self.s[st..self.i];
                self.i += close.len();
                if body == "\"" || body.starts_with("\"\"") {
                    return self.rej("single-line raw string looks like a multi-line one");
                }
                return Ok(body.to_string());
            }
            match self.peek() {
                None => return self.rej("unterminated raw string"),
                Some(c) if is_newline_char(c) => return self.rej("newline in raw string"),
                Some(c) if is_disallowed(c) => return self.rej("disallowed code point in raw string"),
                Some(c) => self.i += c.len_utf8(),
            }
        }
    }
}
