//! Journals as data: what a journal says, independent of how it is spelled, and the generators.
use crate::dec::Dec;
use crate::src::Src;

pub type Date = (i32, u32, u32);
pub fn date_str(d: &Date) -> String {
    format!("{:04}-{:02}-{:02}", d.0, d.1, d.2)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Amt {
    pub q: Dec,
    pub sym: String,
}

#[derive(Clone, Debug)]
pub struct PostA {
    pub account: String,
    pub amount: Option<Amt>,
    pub lot_price: Option<Amt>,
    pub lot_date: Option<Date>,
    /// (per unit?, amount)
    pub cost: Option<(bool, Amt)>,
    pub comments: Vec<String>,
}

#[derive(Clone, Debug, Copy, PartialEq)]
pub enum Kind {
    Empty,
    Explicit,
    Blank,
    Multi,
    Implied,
    /// has costs and does not balance: the costs still stay as given
    CostMix,
}

#[derive(Clone, Debug)]
pub struct XactA {
    pub kind: Kind,
    pub date: Date,
    pub aux: Option<Date>,
    pub payee: Option<String>,
    pub note: Option<String>,
    pub comments: Vec<String>,
    pub posts: Vec<PostA>,
}

#[derive(Clone, Debug)]
pub struct PriceA {
    pub date: Date,
    pub time: Option<(u32, u32, u32)>,
    pub sym: String,
    pub price: Amt,
}

#[derive(Clone, Debug)]
pub enum Item {
    Xact(XactA),
    Price(PriceA),
}

#[derive(Clone)]
pub struct Cfg {
    /// weights: Empty, Explicit, Blank, Multi, Implied, CostMix
    pub kinds: [u64; 6],
    /// percent of postings (with a commodity) that carry a lot
    pub lots: u64,
    /// percent of postings with a cost, where the kind allows one
    pub costs: u64,
    /// percent of items that are price directives
    pub prices: u64,
    /// percent of header/posting elements with notes
    pub notes: u64,
    /// percent: journals with commodity-less amounts
    pub bare: u64,
    /// allow the few very large shapes
    pub bulk: bool,
    /// allow quantities of up to 27 digits
    pub huge: bool,
    pub max_xacts: usize,
    /// allow `0 X @@ 5 Y`
    pub zero_total_cost: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            kinds: [3, 30, 40, 12, 12, 3],
            lots: 12,
            costs: 30,
            prices: 12,
            notes: 20,
            bare: 15,
            bulk: true,
            huge: true,
            max_xacts: 14,
            zero_total_cost: true,
        }
    }
}

const SEGMENTS: &[&str] = &[
    "Assets", "Expenses", "A", "Cash", "Food", "Income", "B", "Assets", "a", "Bank Account", "AB", "A B", "A-B",
    "Liabilities", "Equity", "Café", "日本", "401k", "R&D", "O'Neil", "x.y", "Ž", "Zoo", "0", "cash", "Master",
    "Credit Card", "B2", "B10", "Food!", "ß", "e\u{301}", "Assets2", "_", "~x", "A@b", "Opening Balances", "C++",
    "50%", "Assets (old)", "\u{1F4B0}", "9", "10", "2", "100", "010", "-1", "1.5", "2023-01-01", "end x", "include x", "P 5", "#1", "%x", "|y", "account z", "comment", "end",
];
const SYMBOLS: &[&str] = &[
    "EUR", "USD", "VEUR", "$", "€", "BAM", "AUD", "eur", "EU", "EURO", "£", "kn", "C$", "GBP", "日元", "h", "X", "%",
    "A_B", "BRK.B", "Kč", "R$", "oz", "EURX", "XEUR", "ß", "Ω", "a/b", "T'", "₿", "P", "include", "x=y", "#", "*", "Σ",
    "zł.", "A.", "A", "a", "B", "AB", "ab", "eUR", "US$", "+", "~", "!", "?", "^", "&", "|", "\\", "\"Q\"", "A\u{301}", "Á", "A:B", "m²",
];
const PAYEES: &[&str] = &[
    "Supermarket", "Payee", "Shop", "Tesco & Co.", "Café Zoë", "7-Eleven", "A", "Pay  two spaces", "x=y", "A;B",
    "東京ストア", "2023-01-01", "Salary (May)", "10 EUR", "Shop @ Corner", "- dash", "P", "include x", "\u{1F600} smile", "# tag",
    "a:b", "{x}", "\"quoted\"", "it's", "Long name with several words in it", "Unknown Payee", "note", "a note", "Assets", "EUR", "=", "a  b   c", "x ; y", "x ;; y", "x ;y", "Assets:Cash",
    "a\u{b}b", "x\u{feff}y", "x\u{85}y", "a\tb", "a\0b", "a\u{2028}b", "a\rb", "x*", "x !", "x (y)", "a\\b", "5", "0", "<x>", "~",
];
const NOTES: &[&str] = &[
    "note", "a note", ":tag:", "key: value", "x  ; y", "; double", "20 EUR", "näh", "a", "2023-05-01", "# hash", "@ 5 EUR",
    "日本語のメモ", "ends with dash -", "\u{1F600}", "Assets:Cash  20 EUR", "[2023-01-01]", "\\n", "\"q\"", "Payee", "Shop", "A", "Unknown Payee", "a  b   c", ";", ":", "=",
    "a\u{b}b", "x\u{feff}y", "x\u{85}y", "a\tb", "a\0b", "a\u{2028}b", "\u{200b}", "a\rb", "*", "!", "(x)", "[x]", "<x>", "end", "comment",
];

pub fn gen_segment(s: &mut Src) -> String {
    if s.chance(1, 6) {
        let n = s.size(1, 6);
        (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect()
    } else {
        s.pick(SEGMENTS).to_string()
    }
}

fn letters(mut n: usize) -> String {
    let mut out = String::new();
    loop {
        out.push((b'a' + (n % 26) as u8) as char);
        n /= 26;
        if n == 0 {
            return out;
        }
    }
}

pub fn gen_accounts(s: &mut Src, n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let bulk = n > 20;
    for i in 0..n {
        let name = match s.weighted(&[4, 5, 2, 1]) {
            0 => {
                let depth = s.size(1, 3);
                (0..depth).map(|_| gen_segment(s)).collect::<Vec<_>>().join(":")
            }
            1 if !out.is_empty() => {
                // related to an earlier one
                let base = s.pick(&out).clone();
                let mut parts: Vec<String> = base.split(':').map(|x| x.to_string()).collect();
                match s.below(9) {
                    5 => {
                        // the same but for a space at a separator
                        let at = s.below(parts.len() as u64) as usize;
                        if at + 1 < parts.len() && s.chance(1, 2) {
                            parts[at].push(' ');
                        } else if at > 0 {
                            parts[at].insert(0, ' ');
                        }
                    }
                    6 => {
                        // the same but for the case
                        let at = s.below(parts.len() as u64) as usize;
                        let lower = parts[at].to_lowercase();
                        parts[at] = if lower == parts[at] { parts[at].to_uppercase() } else { lower };
                    }
                    7 => {
                        // the same but for the end
                        let more = *s.pick(&["s", "x", "2", ".", "-", "é"]);
                        parts.last_mut().unwrap().push_str(more);
                    }
                    8 => {
                        // its first parts, or its last ones
                        let at = s.below(parts.len() as u64) as usize;
                        if s.chance(1, 2) {
                            parts.truncate(at + 1);
                        } else {
                            parts.drain(..at);
                        }
                    }
                    0 => parts.push(gen_segment(s)),
                    1 => {
                        parts.pop();
                        parts.push(gen_segment(s));
                    }
                    2 => {
                        if parts.len() > 1 {
                            parts.pop();
                        }
                    }
                    3 => parts.push(base.split(':').last().unwrap().to_string()),
                    _ => {
                        let at = s.below(parts.len() as u64) as usize;
                        parts.insert(at, gen_segment(s));
                    }
                }
                parts.truncate(40);
                // no spaces at the ends, and never two together
                parts.join(":").trim().replace("  ", " ")
            }
            2 => gen_segment(s),
            3 => {
                let depth = if s.chance(1, 12) { s.size(10, 40) } else { s.size(4, 7) };
                (0..depth).map(|_| gen_segment(s)).collect::<Vec<_>>().join(":")
            }
            _ => gen_segment(s),
        };
        let name = if bulk && s.chance(1, 2) { format!("{}:{}", name, letters(i)) } else { name };
        if !out.contains(&name) {
            out.push(name);
        }
    }
    out
}

pub fn gen_symbols(s: &mut Src, n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for i in 0..n {
        let sym = if n > 20 {
            format!("S{}", letters(i))
        } else if s.chance(1, 8) {
            let len = s.size(1, 8);
            (0..len).map(|_| (b'A' + s.below(26) as u8) as char).collect()
        } else {
            s.pick(SYMBOLS).to_string()
        };
        if !out.contains(&sym) {
            out.push(sym);
        }
    }
    out
}

pub fn gen_date(s: &mut Src) -> Date {
    let y = match s.weighted(&[24, 8, 2, 2, 2, 1]) {
        0 => s.range(2020, 2026),
        1 => s.range(1995, 2050),
        2 => s.range(1900, 1970),
        3 => s.range(2051, 9999),
        4 => s.range(1000, 1899),
        _ => s.range(0, 999),
    } as i32;
    let m = s.range(1, 12) as u32;
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let max = match m {
        2 if leap => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    let d = match s.weighted(&[8, 1]) {
        0 => s.range(1, max),
        _ => max,
    } as u32;
    (y, m, d)
}

pub fn gen_time(s: &mut Src) -> (u32, u32, u32) {
    match s.weighted(&[6, 1, 1, 1]) {
        0 => (s.range(0, 23) as u32, s.range(0, 59) as u32, s.range(0, 59) as u32),
        1 => (23, 59, 59),
        2 => (s.range(0, 23) as u32, 0, 0),
        _ => (0, s.range(0, 1) as u32, s.range(0, 1) as u32),
    }
}

/// A quantity of ordinary size: at most 16 digits, 8 of them decimals.
pub fn gen_q(s: &mut Src) -> Dec {
    let d = match s.weighted(&[40, 30, 3, 15, 6, 6]) {
        0 => Dec::new(s.range(1, 100) as i128, 0),
        1 => Dec::new(s.range(1, 1_000_000) as i128, 2),
        2 => Dec::zero(),
        3 => {
            let scale = s.below(9) as u32;
            Dec::new(s.range(1, 1_000_000_000_000) as i128, scale)
        }
        4 => Dec::new(s.range(1, 100_000_000_000_000) as i128, 0),
        _ => Dec::new(s.range(1, 999) as i128, 8),
    };
    if s.chance(2, 5) {
        d.neg()
    } else {
        d
    }
}
/// A quantity small enough to be multiplied.
pub fn gen_q_small(s: &mut Src) -> Dec {
    let d = match s.weighted(&[40, 30, 2, 20, 4]) {
        0 => Dec::new(s.range(1, 100) as i128, 0),
        1 => Dec::new(s.range(1, 100_000) as i128, 2),
        2 => Dec::zero(),
        3 => Dec::new(s.range(1, 10_000_000) as i128, s.s_scale(4)),
        _ => Dec::new(s.range(1, 10_000_000) as i128, 0),
    };
    if s.chance(2, 5) {
        d.neg()
    } else {
        d
    }
}
impl Src {
    fn s_scale(&mut self, n: u64) -> u32 {
        self.below(n + 1) as u32
    }
}
pub fn gen_price_q(s: &mut Src) -> Dec {
    let d = gen_q_small(s).abs();
    if d.is_zero() {
        Dec::new(1, 0)
    } else {
        d
    }
}
fn gen_q_huge(s: &mut Src, scale: u32) -> Dec {
    let digits = s.size(18, 27);
    let mut m: i128 = 0;
    // some end in a run of zeros
    let zeros = if s.chance(1, 8) { s.size(1, 17) } else { 0 };
    for i in 0..digits {
        let d = if i + zeros >= digits { 0 } else { s.below(10) as i128 };
        m = m * 10 + if i == 0 && d == 0 { 1 } else { d };
    }
    let d = Dec::new(m, scale);
    if s.chance(1, 2) {
        d.neg()
    } else {
        d
    }
}

fn gen_text(s: &mut Src, table: &[&str]) -> String {
    match s.weighted(&[200, 30, 2]) {
        0 => s.pick(table).to_string(),
        1 => {
            let n = s.size(1, 12);
            let mut t: String = (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect();
            if n > 3 && s.chance(1, 2) {
                t.insert(n / 2, ' ');
            }
            t
        }
        _ => {
            // around the sizes of read buffers
            let n = match s.below(12) {
                0 => s.size(65400, 65700),
                1..=4 => s.size(8100, 8300),
                5..=8 => s.size(200, 5000),
                _ => s.size(16300, 16500),
            };
            let unit = *s.pick(&["x", "é", "ab ", "日"]);
            let mut t: String = unit.repeat(n / unit.len() + 1);
            while t.ends_with(' ') {
                t.pop();
            }
            t
        }
    }
}
pub fn gen_payee(s: &mut Src) -> String {
    gen_text(s, PAYEES)
}
pub fn gen_note(s: &mut Src) -> String {
    gen_text(s, NOTES)
}

pub struct Pools {
    pub accounts: Vec<String>,
    pub syms: Vec<String>,
    pub bare: bool,
    pub huge: Option<u32>,
    pub max_posts: usize,
    pub dates: Vec<Date>,
}

impl Pools {
    pub fn gen(s: &mut Src, accounts: usize, syms: usize, cfg: &Cfg) -> Pools {
        let accounts = gen_accounts(s, accounts.max(1));
        let syms = gen_symbols(s, syms.max(2));
        let nd = s.size(1, 4);
        Pools {
            accounts,
            syms,
            bare: s.chance(cfg.bare, 100),
            huge: None,
            max_posts: 6,
            dates: (0..nd).map(|_| gen_date(s)).collect(),
        }
    }
    fn date(&self, s: &mut Src) -> Date {
        if s.chance(1, 2) {
            *s.pick(&self.dates)
        } else {
            gen_date(s)
        }
    }
    fn sym(&self, s: &mut Src) -> String {
        if self.bare && s.chance(1, 3) {
            String::new()
        } else {
            s.pick(&self.syms).clone()
        }
    }
    pub fn sym_not(&self, s: &mut Src, other: &str) -> String {
        let options: Vec<&String> = self.syms.iter().filter(|x| x.as_str() != other).collect();
        if options.is_empty() {
            return if other == "QQQ" { "RRR".into() } else { "QQQ".into() };
        }
        s.pick(&options).to_string()
    }
    fn q(&self, s: &mut Src) -> Dec {
        match self.huge {
            Some(scale) => gen_q_huge(s, scale),
            None => gen_q(s),
        }
    }
}

fn plain_post(p: &Pools, s: &mut Src, amount: Option<Amt>) -> PostA {
    PostA { account: s.pick(&p.accounts).clone(), amount, lot_price: None, lot_date: None, cost: None, comments: vec![] }
}

/// The amount a posting contributes to its transaction.
pub fn contribution(p: &PostA) -> Option<Amt> {
    let a = p.amount.as_ref()?;
    Some(match &p.cost {
        None => a.clone(),
        Some((true, c)) => Amt { q: c.q.mul(&a.q), sym: c.sym.clone() },
        Some((false, c)) => c.clone(),
    })
}

fn costed_post(p: &Pools, s: &mut Src, cost_sym: &str, cfg: &Cfg) -> PostA {
    let sym = p.sym_not(s, cost_sym);
    let mut q = gen_q_small(s);
    let per_unit = s.chance(1, 2);
    if !per_unit && !cfg.zero_total_cost && q.is_zero() {
        q = Dec::new(1, 0);
    }
    let mut c = gen_price_q(s);
    if !per_unit && q.is_neg() && s.chance(1, 3) {
        c = c.neg();
    }
    if per_unit && s.chance(1, 40) {
        c = c.neg();
    }
    if s.chance(1, 60) {
        c = Dec::zero();
    }
    if s.chance(1, 40) {
        // large round numbers
        q = Dec::new(s.range(1, 99) as i128 * 10i128.pow(s.below(9) as u32), 0);
        c = Dec::new(s.range(1, 99) as i128 * 10i128.pow(s.below(9) as u32), 0);
    }
    let mut post = plain_post(p, s, Some(Amt { q, sym }));
    post.cost = Some((per_unit, Amt { q: c, sym: cost_sym.to_string() }));
    post
}

pub fn gen_xact(s: &mut Src, p: &Pools, cfg: &Cfg) -> XactA {
    let kind = [Kind::Empty, Kind::Explicit, Kind::Blank, Kind::Multi, Kind::Implied, Kind::CostMix][s.weighted(&cfg.kinds)];
    let mut posts: Vec<PostA> = vec![];
    match kind {
        Kind::Empty => (),
        Kind::Explicit | Kind::Blank => {
            let sym = p.sym(s);
            let n = s.size(1, p.max_posts.max(2) - 1);
            let mut sum = Dec::zero();
            for _ in 0..n {
                let post = if !sym.is_empty() && p.huge.is_none() && s.chance(cfg.costs, 100) {
                    costed_post(p, s, &sym, cfg)
                } else {
                    let q = p.q(s);
                    plain_post(p, s, Some(Amt { q, sym: sym.clone() }))
                };
                sum = sum.add(&contribution(&post).unwrap().q);
                posts.push(post);
            }
            let last = if kind == Kind::Blank {
                plain_post(p, s, None)
            } else {
                plain_post(p, s, Some(Amt { q: sum.neg(), sym }))
            };
            let at = n - s.below(n as u64 + 1) as usize;
            posts.insert(at, last);
        }
        Kind::Multi => {
            let k = s.size(2, 4);
            let mut used: Vec<String> = vec![];
            for _ in 0..k {
                let sym = p.sym(s);
                if used.contains(&sym) {
                    continue;
                }
                used.push(sym.clone());
                let n = s.size(1, 3);
                let mut sum = Dec::zero();
                for _ in 0..n {
                    let q = p.q(s);
                    sum = sum.add(&q);
                    posts.push(plain_post(p, s, Some(Amt { q, sym: sym.clone() })));
                }
                posts.push(plain_post(p, s, Some(Amt { q: sum.neg(), sym })));
            }
            s.shuffle(&mut posts);
        }
        Kind::Implied => {
            let a = s.pick(&p.syms).clone();
            let b = p.sym_not(s, &a);
            let mut sums = vec![];
            let many = s.chance(1, 60);
            // quantities of very different sizes
            let far = if s.chance(1, 20) { 1 + s.below(2) as usize } else { 0 };
            for (i, sym) in [a, b].iter().enumerate() {
                let n = if p.max_posts > 200 { s.size(1, p.max_posts / 2) } else if many { s.size(1, 30) } else { s.size(1, 3) };
                let mut sum = Dec::zero();
                for _ in 0..n {
                    let q = match far {
                        0 => gen_q_small(s),
                        k if k == i + 1 => gen_q_small(s).mul(&Dec::new(s.range(1, 1_000_000) as i128, 0)),
                        _ => Dec::new(s.range(-999, 999) as i128, 4),
                    };
                    sum = sum.add(&q);
                    posts.push(plain_post(p, s, Some(Amt { q, sym: sym.clone() })));
                }
                // the two sums are of opposite signs
                let wrong = if i == 0 { sum.is_zero() } else { sum.is_zero() || sum.is_neg() == Dec::is_neg(&sums[0]) };
                if wrong {
                    let mut q = Dec::new(s.range(1, 1_000_000) as i128, 2);
                    if i == 1 && !Dec::is_neg(&sums[0]) {
                        q = q.neg();
                    }
                    let q = q.sub(&sum);
                    sum = sum.add(&q);
                    posts.push(plain_post(p, s, Some(Amt { q, sym: sym.clone() })));
                }
                sums.push(sum);
            }
            s.shuffle(&mut posts);
        }
        Kind::CostMix => {
            let a = s.pick(&p.syms).clone();
            let n = s.size(1, 2);
            for _ in 0..n {
                let post = costed_post(p, s, &a, cfg);
                posts.push(post);
            }
            let b = p.sym_not(s, &a);
            let q = gen_price_q(s).neg();
            posts.push(plain_post(p, s, Some(Amt { q, sym: b })));
            if s.chance(1, 6) {
                // and one in the commodity of the costs
                let q = gen_q_small(s);
                posts.push(plain_post(p, s, Some(Amt { q, sym: a.clone() })));
                if s.chance(1, 4) {
                    for post in posts.iter_mut() {
                        if let Some((_, c)) = &mut post.cost {
                            c.q = Dec::zero();
                        }
                    }
                }
            }
            s.shuffle(&mut posts);
        }
    }
    // lots and notes
    for post in posts.iter_mut() {
        let has_sym = post.amount.as_ref().map_or(false, |a| !a.sym.is_empty());
        if has_sym && s.chance(cfg.lots, 100) {
            let which = s.below(3);
            if which != 1 {
                let sym = p.sym_not(s, &post.amount.as_ref().unwrap().sym.clone());
                let q = match s.below(24) {
                    0 => Dec::zero(),
                    1 => gen_price_q(s).neg(),
                    _ => gen_price_q(s),
                };
                post.lot_price = Some(Amt { q, sym });
            }
            if which != 0 {
                post.lot_date = Some(gen_date(s));
            }
        }
        if s.chance(cfg.notes, 100) {
            let n = s.size(1, 3);
            for _ in 0..n {
                post.comments.push(gen_note(s));
            }
        }
    }
    let mut x = XactA { kind, date: p.date(s), aux: None, payee: None, note: None, comments: vec![], posts };
    if s.chance(1, 8) {
        x.aux = Some(match s.below(4) {
            0 => x.date,
            1 => p.date(s),
            _ => gen_date(s),
        });
    }
    if s.chance(9, 10) {
        x.payee = Some(gen_payee(s));
    }
    if s.chance(cfg.notes, 100) {
        x.note = Some(gen_note(s));
    }
    if s.chance(cfg.notes, 100) {
        let n = s.size(1, 3);
        for _ in 0..n {
            x.comments.push(gen_note(s));
        }
    }
    x
}

pub fn gen_price(s: &mut Src, p: &Pools) -> PriceA {
    let sym = s.pick(&p.syms).clone();
    let target = p.sym_not(s, &sym);
    let time = if s.chance(1, 2) {
        Some(gen_time(s))
    } else {
        None
    };
    let q = match s.below(60) {
        1 => Dec::zero(),
        2 => gen_price_q(s).neg(),
        3..=16 => Dec::new(*s.pick(&[1, 2, 15]), s.below(2) as u32),
        _ => gen_price_q(s),
    };
    PriceA { date: p.date(s), time, sym, price: Amt { q, sym: target } }
}

pub fn gen_journal(s: &mut Src, cfg: &Cfg) -> Vec<Item> {
    let shape = s.weighted(&[700, 240, if cfg.bulk { 14 } else { 0 }, if cfg.bulk { 10 } else { 0 }, if cfg.huge { 36 } else { 0 }, if cfg.bulk { 1 } else { 0 }]);
    let (na, ns, nx, mp) = match shape {
        0 => (s.size(1, 5), s.size(2, 4), s.size(1, 4), 5),
        1 => (s.size(3, 12), s.size(2, 6), s.size(3, cfg.max_xacts.max(4)), 8),
        2 => (s.size(50, 300), s.size(2, 300), s.size(40, 150), 6),
        3 => (s.size(2, 60), s.size(2, 5), s.size(1, 3), s.size(20, 200)),
        5 => (3, if s.chance(1, 3) { s.size(2, 400) } else { 3 }, s.size(1, 8), s.size(50, 1200)),
        _ => (s.size(1, 4), 2, s.size(1, 3), 4),
    };
    let mut p = Pools::gen(s, na, ns, cfg);
    p.max_posts = mp;
    if shape == 5 && s.chance(3, 4) {
        // very many siblings
        let parent = if s.chance(1, 2) { format!("{}:", p.accounts[0]) } else { String::new() };
        for k in 0..s.size(1, 800) {
            p.accounts.push(format!("{}{}{}", parent, s.pick(&["n", "Sub ", "Á"]), k));
        }
    }
    let mut cfg = cfg.clone();
    if shape == 4 {
        p.huge = Some(s.below(28) as u32);
        cfg.kinds[4] = 0;
        cfg.kinds[5] = 0;
    }
    let mut items: Vec<Item> = vec![];
    if shape == 2 && s.chance(1, 40) {
        // very many, of a few kinds
        p.max_posts = 3;
        let n = s.size(1, 5);
        let few: Vec<Item> = (0..n)
            .map(|_| if s.chance(1, 8) { Item::Price(gen_price(s, &p)) } else { Item::Xact(gen_xact(s, &p, &cfg)) })
            .collect();
        let n = s.size(1200, 4500);
        return few.iter().cycle().take(n).cloned().collect();
    }
    for _ in 0..nx {
        if s.chance(cfg.prices, 100) {
            items.push(Item::Price(gen_price(s, &p)));
        } else if s.chance(1, 25) && !items.is_empty() {
            // an exact repetition
            let again = s.pick(&items).clone();
            items.push(again);
        } else {
            items.push(Item::Xact(gen_xact(s, &p, &cfg)));
        }
    }
    items
}
