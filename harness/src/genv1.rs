//! KDL v1 texts and the content they are constructed from.
use crate::gen::{rand_string, NEWLINES};
use crate::model::{MDoc, MEntry, MNode};
use crate::refparse::Val;
use crate::rng::Rng;

pub struct V1 {
    pub wild: usize,
    pub slashdash: bool,
    pub weird: usize,
    pub depth: usize,
    pub nodes: usize,
}
impl V1 {
    pub fn random(r: &mut Rng) -> V1 {
        V1 { wild: *r.pick(&[0, 8, 40]), slashdash: r.p(1, 3), weird: *r.pick(&[0, 10, 45, 90]), depth: r.range(0, 3), nodes: 4 }
    }
}

/// v1's own newlines (no vertical tab).
const NL1: [&str; 7] = ["\n", "\r\n", "\r", "\u{85}", "\u{C}", "\u{2028}", "\u{2029}"];
const SP1: [&str; 8] = [" ", "\t", "  ", "\u{A0}", "\u{3000}", "\u{FEFF}", "\u{2003}", " \t "];

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub st: V1,
    pub slashed: usize,
}

pub fn bare_ok(s: &str) -> bool {
    let init = |c: char| !matches!(c, '0'..='9') && mid(c);
    fn mid(c: char) -> bool {
        !((c as u32) < 0x20
            || (c as u32) > 0x10ffff
            || matches!(c, '\\' | '/' | '(' | ')' | '{' | '}' | '<' | '>' | ';' | '[' | ']' | '=' | ',' | '"')
            || c.is_whitespace()
            || matches!(c, '\u{FEFF}' | '\u{85}' | '\u{2028}' | '\u{2029}'))
    }
    if matches!(s, "true" | "false" | "null") {
        return false;
    }
    let mut i = s.chars();
    let Some(c) = i.next() else { return false };
    if !init(c) || !i.all(mid) {
        return false;
    }
    // not the start of a number or raw string
    let b: Vec<char> = s.chars().collect();
    !(matches!(b[0], '-' | '+') && b.get(1).is_some_and(|c| c.is_ascii_digit())) && !s.starts_with("r#") && !s.starts_with("true") && !s.starts_with("false") && !s.starts_with("null")
}

impl<'a> G<'a> {
    fn wild(&mut self) -> bool {
        let w = self.st.wild;
        self.r.below(100) < w
    }
    fn comment(&mut self, out: &mut String) {
        out.push_str(*self.r.pick(&["/* c */", "/**/", "/*/* n */*/", "/* ; \" */", "/* /- */", "/*\n*/", "/* // */"]));
    }
    fn line_comment(&mut self, out: &mut String) {
        out.push_str(*self.r.pick(&["// c", "//", "// ; x", "// \\", "// \"q", "// /* x", "//// /-"]));
        let nl = self.nl();
        out.push_str(nl);
    }
    fn nl(&mut self) -> &'static str {
        if self.wild() { *self.r.pick(&NL1) } else { "\n" }
    }
    /// space inside a node, at least one piece when `one`
    fn space(&mut self, one: bool, out: &mut String) {
        if !one && !self.wild() {
            return;
        }
        if !self.wild() {
            out.push(' ');
            return;
        }
        for _ in 0..self.r.range(1, 2) {
            match self.r.below(6) {
                0 => self.comment(out),
                1 | 2 => {
                    out.push('\\');
                    if self.r.p(1, 3) {
                        out.push(' ');
                    }
                    if self.r.p(1, 4) {
                        self.line_comment(out);
                    } else {
                        let nl = self.nl();
                        out.push_str(nl);
                    }
                    if self.r.p(1, 3) {
                        out.push_str("  ");
                    }
                }
                3 if self.st.slashdash => {
                    out.push_str(" /-");
                    self.slashed += 1;
                    if self.r.p(1, 2) {
                        out.push(' ');
                    }
                    let mut e = String::new();
                    self.entry(&mut e);
                    out.push_str(&e);
                    out.push(' ');
                }
                _ => out.push_str(*self.r.pick(&SP1)),
            }
        }
    }
    /// between nodes
    fn lines(&mut self, out: &mut String) {
        if !self.wild() {
            return;
        }
        for _ in 0..self.r.range(1, 3) {
            match self.r.below(6) {
                0 => self.comment(out),
                1 => self.line_comment(out),
                2 => {
                    let nl = self.nl();
                    out.push_str(nl)
                }
                3 if self.st.slashdash => {
                    self.slashed += 1;
                    out.push_str("/-");
                    self.node(0, out);
                }
                _ => out.push_str(*self.r.pick(&SP1)),
            }
        }
    }
    pub fn quoted(&mut self, s: &str, out: &mut String) {
        if !s.contains('"') && self.r.p(1, 5) {
            let h = if self.r.p(1, 2) { 1 } else { 0 };
            let h = if s.contains("\"#") { 3 } else { h };
            let h = "#".repeat(h);
            out.push_str(&format!("r{h}\"{s}\"{h}"));
            return;
        }
        if self.r.p(1, 10) && !s.contains("\"##") {
            out.push_str(&format!("r##\"{s}\"##"));
            return;
        }
        out.push('"');
        for c in s.chars() {
            match c {
                '"' => out.push_str("\\\""),
                '\\' => out.push_str("\\\\"),
                '/' if self.r.p(1, 2) => out.push_str("\\/"),
                '\n' if self.r.p(1, 2) => out.push_str("\\n"),
                '\r' if self.r.p(1, 2) => out.push_str("\\r"),
                '\t' if self.r.p(1, 2) => out.push_str("\\t"),
                '\u{8}' if self.r.p(1, 2) => out.push_str("\\b"),
                '\u{c}' if self.r.p(1, 2) => out.push_str("\\f"),
                c if self.r.p(1, 12) => out.push_str(&format!("\\u{{{:x}}}", c as u32)),
                c => out.push(c),
            }
        }
        out.push('"');
    }
    fn string(&mut self) -> String {
        let w = self.st.weird;
        if self.r.p(1, 12) {
            let nl = if self.r.p(2, 3) { "\n" } else { *self.r.pick(&NEWLINES) };
            let mut s = String::new();
            for i in 0..self.r.range(2, 4) {
                if i > 0 {
                    s.push_str(nl);
                }
                s.push_str(*self.r.pick(&["", "a", "  b", "\tc", "d  ", "\"\"\"", "#", "\\", "  "]));
            }
            return s;
        }
        rand_string(self.r, w)
    }
    fn ident(&mut self, out: &mut String) -> String {
        let s = if self.r.p(1, 12) { self.r.pick(&["-", "--", "a#b", "#a", "inf", "nan", "-inf", "+a", "r", "ra", ".5", ".", "a\"", "_1", "é", "a\u{200b}b", "true", "", "#true", "a'b"]).to_string() } else { self.string() };
        if bare_ok(&s) && self.r.p(3, 4) {
            out.push_str(&s);
        } else {
            self.quoted(&s, out);
        }
        s
    }
    fn ty(&mut self, out: &mut String) -> Option<String> {
        if !self.r.p(1, 8) {
            return None;
        }
        out.push('(');
        let s = self.ident(out);
        out.push(')');
        Some(s)
    }
    fn number(&mut self, out: &mut String) -> Val {
        let neg = self.r.p(1, 4);
        let mut t = String::new();
        if neg {
            t.push('-');
        } else if self.r.p(1, 8) {
            t.push('+');
        }
        if self.r.p(1, 3) {
            let mut x = format!("{}.{}", self.r.below(1000), self.r.below(1000));
            if self.r.p(1, 3) {
                x.push_str(*self.r.pick(&["e5", "E-3", "e+10", "e300", "e-300"]));
            }
            if self.r.p(1, 8) {
                x = x.replacen('.', "_.", 1);
            }
            t.push_str(&x);
            out.push_str(&t);
            return Val::Float(t.replace('_', "").parse().unwrap());
        }
        let m: u64 = match self.r.below(4) {
            0 => self.r.next() >> 1,
            1 => i64::MAX as u64,
            _ => self.r.below(100000) as u64,
        };
        let body = match self.r.below(5) {
            0 => format!("0x{m:x}"),
            1 => format!("0o{m:o}"),
            2 => format!("0b{m:b}"),
            _ => m.to_string(),
        };
        let body = if self.r.p(1, 6) && body.len() > 3 { format!("{}_{}", &body[..3], &body[3..]) } else { body };
        t.push_str(&body);
        out.push_str(&t);
        let v = m as i128;
        Val::Int(if neg { -v } else { v })
    }
    fn value(&mut self, out: &mut String) -> Val {
        match self.r.below(8) {
            0 => {
                out.push_str("true");
                Val::Bool(true)
            }
            1 => {
                out.push_str("false");
                Val::Bool(false)
            }
            2 => {
                out.push_str("null");
                Val::Null
            }
            3 | 4 => self.number(out),
            _ => {
                let s = self.string();
                self.quoted(&s, out);
                Val::Str(s)
            }
        }
    }
    fn entry(&mut self, out: &mut String) -> MEntry {
        let name = if self.r.p(1, 3) {
            let s = self.ident(out);
            out.push('=');
            Some(s)
        } else {
            None
        };
        let ty = self.ty(out);
        let value = self.value(out);
        MEntry { ty, name, value }
    }
    fn node(&mut self, depth: usize, out: &mut String) -> MNode {
        let ty = self.ty(out);
        let name = self.ident(out);
        let mut entries = vec![];
        for _ in 0..self.r.below(4) {
            self.space(true, out);
            if out.ends_with('"') {
                out.push(' ');
            }
            entries.push(self.entry(out));
        }
        let mut children = None;
        if depth < self.st.depth && self.r.p(1, 4) {
            self.space(false, out);
            out.push('{');
            let d = self.document(depth + 1, out);
            out.push('}');
            children = Some(d);
        } else if self.st.slashdash && self.r.p(1, 16) {
            out.push_str(" /-{");
            self.slashed += 1;
            self.document(depth + 3, out);
            out.push('}');
        }
        self.space(false, out);
        match self.r.below(5) {
            0 => {
                out.push(';');
                if self.r.p(1, 3) {
                    let nl = self.nl();
                    out.push_str(nl);
                }
            }
            1 if self.wild() => {
                out.push(' ');
                self.line_comment(out)
            }
            _ => {
                let nl = self.nl();
                out.push_str(nl)
            }
        }
        MNode { ty, name, entries, children }
    }
    pub fn document(&mut self, depth: usize, out: &mut String) -> MDoc {
        let mut d = vec![];
        let n = self.r.below(self.st.nodes);
        self.lines(out);
        if depth > 0 && self.r.p(1, 2) {
            out.push('\n');
        }
        for _ in 0..n {
            d.push(self.node(depth, out));
            self.lines(out);
        }
        d
    }
}

pub fn document(seed: u64) -> (String, MDoc, usize) {
    let mut r = Rng::new(seed);
    let st = V1::random(&mut r);
    let mut g = G { r: &mut r, st, slashed: 0 };
    let mut out = String::new();
    let d = g.document(0, &mut out);
    let s = g.slashed;
    (out, d, s)
}
