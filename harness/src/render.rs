//! Spelling a journal out as text, in any of the ways the format allows.
use crate::ast::*;
use crate::dec::Dec;
use crate::src::Src;

/// How free the spelling is. `Plain` is the one canonical spelling.
#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Plain,
    Free,
}

pub struct Render<'a> {
    pub s: &'a mut Src,
    pub style: Style,
    /// per-file: line ending choice
    crlf: u64,
}

const GLOBAL: &[&str] = &[
    "comment", "", " a comment", "2023-01-01 not a transaction", "  A  20 EUR", "P 2023-01-01 EUR 2 USD", "include nothing", "é日本", "*** title",
];

impl<'a> Render<'a> {
    pub fn new(s: &'a mut Src, style: Style) -> Render<'a> {
        let crlf = if style == Style::Free { s.below(3) } else { 0 };
        Render { s, style, crlf }
    }
    fn free(&mut self, num: u64, den: u64) -> bool {
        self.style == Style::Free && self.s.chance(num, den)
    }
    fn eol(&mut self) -> &'static str {
        match self.crlf {
            0 => "\n",
            1 => "\r\n",
            _ => {
                if self.free(1, 2) {
                    "\r\n"
                } else {
                    "\n"
                }
            }
        }
    }
    fn spaces(&mut self, lo: usize, hi: usize, plain: usize) -> String {
        let mut n = if self.style == Style::Free { self.s.size(lo, hi) } else { plain };
        // a long run of spaces, where there may be several
        if hi >= 2 && self.free(1, 150) {
            n += self.s.size(10, 120);
        }
        " ".repeat(n)
    }
    pub fn lit(&mut self, d: &Dec) -> String {
        let mut d = d.clone();
        if d.scale() < 8 && d.digits() < 18 && self.free(1, 8) {
            let to = self.s.range(d.scale() as i64, 8) as u32;
            d = d.rescaled(to);
        }
        let text = d.to_string();
        let (sign, mut body) = match text.strip_prefix('-') {
            Some(b) => ("-", b.to_string()),
            None => ("", text),
        };
        if self.free(1, 12) {
            if body.starts_with("0.") {
                body = body[1..].to_string();
            } else if !body.contains('.') && body.len() < 20 {
                body.push('.');
            }
        } else if body.len() < 22 && self.free(1, 16) {
            body = "0".repeat(self.s.size(1, 3)) + &body;
        }
        format!("{}{}", sign, body)
    }
    pub fn amount(&mut self, a: &Amt) -> String {
        let q = self.lit(&a.q);
        if a.sym.is_empty() {
            return q;
        }
        match if self.style == Style::Free { self.s.below(5) } else { 0 } {
            0 | 1 => format!("{}{}{}", q, self.spaces(1, 3, 1), a.sym),
            2 => format!("{}{}", q, a.sym),
            3 if !q.starts_with('.') => format!("{}{}", a.sym, q),
            _ => format!("{}{}{}", a.sym, self.spaces(1, 3, 1), q),
        }
    }
    pub fn date(&mut self, d: &Date) -> String {
        if self.free(1, 20) {
            format!("{:04}-{}-{}", d.0, d.1, d.2)
        } else {
            date_str(d)
        }
    }
    fn post_note(&mut self) -> String {
        if self.free(1, 6) {
            let note = *self.s.pick(&["note", "20 EUR", "a  b", "@ 5 USD", "é", "{3 X}", "; ;", ""]);
            format!("{};{}{}", self.spaces(2, 4, 2), self.spaces(0, 1, 1), note)
        } else if self.free(1, 6) {
            self.spaces(1, 4, 0)
        } else {
            String::new()
        }
    }
    fn comment_line(&mut self, text: &str) -> String {
        format!("{};{}{}{}{}", self.spaces(1, 8, 4), self.spaces(0, 2, 1), text, self.spaces(0, 2, 0), self.eol())
    }
    pub fn posting(&mut self, p: &PostA) -> String {
        let mut line = self.spaces(1, 8, 4);
        line += &p.account;
        if let Some(a) = &p.amount {
            line += &self.spaces(2, 12, 2);
            line += &self.amount(a);
            let mut lots = vec![];
            if let Some(price) = &p.lot_price {
                let inner = self.amount(price);
                lots.push(format!("{{{}{}{}}}", self.spaces(0, 1, 0), inner, if self.free(1, 6) { " " } else { "" }));
            }
            if let Some(d) = &p.lot_date {
                lots.push(format!("[{}{}{}]", self.spaces(0, 1, 0), self.date(d), if self.free(1, 8) { " " } else { "" }));
            }
            if lots.len() == 2 && self.free(1, 2) {
                lots.swap(0, 1);
            }
            for lot in lots {
                line += &self.spaces(1, 2, 1);
                line += &lot;
            }
            if let Some((unit, c)) = &p.cost {
                // the commodity may be followed by the @ directly
                line += &self.spaces(0, 2, 1);
                line += if *unit { "@" } else { "@@" };
                line += &self.spaces(0, 2, 1);
                line += &self.amount(c);
            }
        }
        line += &self.post_note();
        line += self.eol();
        line
    }
    pub fn header(&mut self, x: &XactA) -> String {
        let mut out = self.date(&x.date);
        if let Some(d) = &x.aux {
            out += "=";
            out += &self.date(d);
        }
        if let Some(p) = &x.payee {
            out += &self.spaces(1, 3, 1);
            out += p;
        }
        if let Some(n) = &x.note {
            out += &self.spaces(2, 4, 2);
            out += ";";
            out += &self.spaces(0, 2, 1);
            out += n;
        }
        out += &self.spaces(0, 2, 0);
        out += self.eol();
        out
    }
    pub fn xact(&mut self, x: &XactA) -> String {
        let mut out = self.header(x);
        for c in &x.comments {
            out += &self.comment_line(c);
        }
        if self.free(1, 20) {
            out += &self.comment_line("");
        }
        for p in &x.posts {
            out += &self.posting(p);
            for c in &p.comments {
                out += &self.comment_line(c);
            }
            if self.free(1, 30) {
                out += &self.comment_line("");
            }
        }
        out
    }
    pub fn price(&mut self, p: &PriceA) -> String {
        let mut out = String::from("P");
        out += &self.spaces(1, 3, 1);
        out += &self.date(&p.date);
        if let Some((h, m, sec)) = p.time {
            out += &self.spaces(1, 2, 1);
            for (i, x) in [h, m, sec].into_iter().enumerate() {
                if i > 0 {
                    out.push(':');
                }
                out += &if self.style != Style::Plain && self.s.chance(1, 8) { format!("{}", x) } else { format!("{:02}", x) };
            }
        }
        out += &self.spaces(1, 2, 1);
        out += &p.sym;
        out += &self.spaces(1, 2, 1);
        out += &self.lit(&p.price.q);
        out += &self.spaces(1, 2, 1);
        out += &p.price.sym;
        out += &self.spaces(0, 2, 0);
        out += self.eol();
        out
    }
    /// Lines that say nothing: blank lines and comments.
    pub fn filler(&mut self) -> String {
        let mut out = String::new();
        if self.style == Style::Plain {
            return out;
        }
        for _ in 0..self.s.weighted(&[12, 3, 1]) {
            if self.s.chance(1, 2) {
                let lead = *self.s.pick(&[";", "#", "*", "|"]);
                let text = *self.s.pick(GLOBAL);
                out += lead;
                out += text;
            } else {
                out += *self.s.pick(&["", " ", "    ", "\t", " \t "]);
            }
            out += self.eol();
        }
        out
    }
    /// The blank line that ends a transaction.
    fn separator(&mut self) -> String {
        let mut out = String::new();
        if self.free(1, 8) {
            out += &self.spaces(1, 5, 0);
        }
        out += self.eol();
        out
    }
    pub fn item(&mut self, item: &Item) -> String {
        match item {
            Item::Xact(x) => self.xact(x) + &self.separator(),
            Item::Price(p) => {
                let mut out = self.price(p);
                if self.style == Style::Plain || self.s.chance(1, 2) {
                    out += self.eol();
                }
                out
            }
        }
    }
    /// A whole file. The end of the file ends the last transaction.
    pub fn journal(&mut self, items: &[Item]) -> String {
        let mut out = self.filler();
        for item in items {
            out += &self.item(item);
            out += &self.filler();
        }
        if self.style == Style::Free {
            match self.s.below(4) {
                0 => {
                    // without the trailing blank lines
                    let t = out.trim_end_matches(|c| c == '\n' || c == '\r').len();
                    out.truncate(t);
                }
                1 => {
                    let t = out.trim_end_matches(|c| c == '\n' || c == '\r').len();
                    out.truncate(t);
                    out += self.eol();
                }
                _ => (),
            }
        }
        out
    }
}

pub fn plain(s: &mut Src, items: &[Item]) -> String {
    Render::new(s, Style::Plain).journal(items)
}
pub fn free(s: &mut Src, items: &[Item]) -> String {
    Render::new(s, Style::Free).journal(items)
}
