//! What the library made of a journal, read through its public interface into plain data.
//! Pointers are followed only after their address was found among the live objects.
use crate::ast::{date_str, Amt};
use crate::dec::Dec;
use crate::model::{MCost, Model};
use chrono::{Datelike, NaiveDateTime, Timelike};
use ledger_rs_lib::account::Account;
use ledger_rs_lib::amount::{Amount, Quantity};
use ledger_rs_lib::journal::Journal;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type R<T> = Result<T, String>;

#[derive(Clone, Debug, PartialEq)]
pub struct SPost {
    pub account: String,
    pub amount: Option<Amt>,
    pub cost: Option<Amt>,
    pub note: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SXact {
    pub date: Option<String>,
    pub aux: Option<String>,
    pub payee: String,
    pub note: Option<String>,
    pub posts: Vec<SPost>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub xacts: Vec<SXact>,
    pub accounts: BTreeSet<Vec<String>>,
}

pub fn dec(q: &Quantity) -> R<Dec> {
    let t = q.to_string();
    Dec::parse(&t).ok_or_else(|| format!("quantity displayed as {:?}", t))
}

/// address of every account -> its path of names, from walking the tree
pub fn account_map(journal: &Journal) -> HashMap<usize, Vec<String>> {
    let mut out = HashMap::new();
    fn walk(a: &Account, path: Vec<String>, out: &mut HashMap<usize, Vec<String>>) {
        for (name, child) in &a.accounts {
            let mut p = path.clone();
            p.push(name.clone());
            walk(child, p, out);
        }
        out.insert(a as *const Account as usize, path);
    }
    walk(&journal.master, vec![], &mut out);
    out
}

/// address -> symbol, for the given symbols
pub fn commodity_map<'a>(journal: &Journal, syms: impl Iterator<Item = &'a String>) -> HashMap<usize, String> {
    let mut out = HashMap::new();
    for sym in syms {
        if let Some(c) = journal.commodity_pool.find(sym) {
            out.insert(c as *const _ as usize, sym.clone());
        }
    }
    out
}

pub fn amount(a: &Amount, comms: Option<&HashMap<usize, String>>) -> R<Amt> {
    let sym = match a.get_commodity() {
        None => String::new(),
        Some(c) => {
            let addr = c as *const _ as usize;
            match comms {
                Some(map) => match map.get(&addr) {
                    Some(sym) => {
                        if c.symbol != *sym {
                            return Err(format!("commodity {:?} is stored under {:?}", c.symbol, sym));
                        }
                        sym.clone()
                    }
                    None => return Err("an amount refers to a commodity that is not the journal's commodity of any expected symbol".into()),
                },
                None => c.symbol.clone(),
            }
        }
    };
    Ok(Amt { q: dec(&a.quantity)?, sym })
}

pub fn snap(journal: &Journal, syms: Option<&BTreeSet<String>>) -> R<Snap> {
    let accounts = account_map(journal);
    let comms = syms.map(|s| commodity_map(journal, s.iter()));
    let mut xacts = vec![];
    for x in &journal.xacts {
        let mut posts = vec![];
        for p in &x.posts {
            let Some(acct) = accounts.get(&(p.account as usize)) else {
                return Err("a posting's account is not an account of the journal".into());
            };
            posts.push(SPost {
                account: acct.join(":"),
                amount: p.amount.as_ref().map(|a| amount(a, comms.as_ref())).transpose()?,
                cost: p.cost.as_ref().map(|a| amount(a, comms.as_ref())).transpose()?,
                note: p.note.clone(),
            });
        }
        xacts.push(SXact {
            date: x.date.map(|d| d.to_string()),
            aux: x.aux_date.map(|d| d.to_string()),
            payee: x.payee.clone(),
            note: x.note.clone(),
            posts,
        });
    }
    Ok(Snap { xacts, accounts: accounts.into_values().collect() })
}

pub fn show(a: &Option<Amt>) -> String {
    match a {
        None => "nothing".into(),
        Some(a) => format!("{} {}", a.q, a.sym),
    }
}

/// Aspects of a comparison.
#[derive(Clone, Copy, Default)]
pub struct Aspects {
    pub header: bool,
    pub notes: bool,
    pub accounts: bool,
    pub amounts: bool,
    pub blanks: bool,
    pub given_costs: bool,
    pub implied_costs: bool,
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, at: &str, want: &T, got: &T) -> R<()> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: {} is {:?}, the journal says {:?}", at, what, got, want))
    }
}

pub fn compare(model: &Model, s: &Snap, a: Aspects) -> R<()> {
    if model.xacts.len() != s.xacts.len() {
        return Err(format!("{} transactions were read, the journal has {}", s.xacts.len(), model.xacts.len()));
    }
    for (i, (m, x)) in model.xacts.iter().zip(&s.xacts).enumerate() {
        let at = format!("transaction {}", i);
        if a.header {
            eq("the date", &at, &Some(date_str(&m.date)), &x.date)?;
            eq("the auxiliary date", &at, &m.aux.as_ref().map(date_str), &x.aux)?;
            eq("the payee", &at, &m.payee, &x.payee)?;
        }
        if a.notes {
            eq("the note", &at, &m.note, &x.note)?;
        }
        if m.posts.len() != x.posts.len() {
            return Err(format!("{}: {} postings were read, the journal has {}", at, x.posts.len(), m.posts.len()));
        }
        for (j, (mp, p)) in m.posts.iter().zip(&x.posts).enumerate() {
            let at = format!("transaction {}, posting {}", i, j);
            if a.accounts {
                eq("the account", &at, &mp.account, &p.account)?;
            }
            if a.notes {
                eq("the note", &at, &mp.note, &p.note)?;
            }
            if (a.amounts && !mp.blank) || (a.blanks && mp.blank) {
                let want = Some(mp.amount.clone());
                if want != p.amount {
                    return Err(format!("{}: the amount is {}, expected {}", at, show(&p.amount), show(&want)));
                }
            }
            match &mp.cost {
                MCost::None => {
                    if a.given_costs && a.implied_costs || (a.given_costs && m.kind != crate::ast::Kind::Implied) {
                        if p.cost.is_some() {
                            return Err(format!("{}: has the cost {}, none expected", at, show(&p.cost)));
                        }
                    }
                }
                MCost::Given(c) => {
                    if a.given_costs && p.cost.as_ref() != Some(c) {
                        return Err(format!("{}: the cost is {}, expected {} {}", at, show(&p.cost), c.q, c.sym));
                    }
                }
                MCost::Implied { x, y, sym } => {
                    if a.implied_costs {
                        let Some(c) = &p.cost else {
                            return Err(format!("{}: has no cost, a conversion to {} is implied", at, sym));
                        };
                        if c.sym != *sym {
                            return Err(format!("{}: the cost is in {:?}, expected {:?}", at, c.sym, sym));
                        }
                        // cost = amount * |y| / |x|
                        let num = mp.amount.q.mul(&y.abs());
                        let tol = num.abs().mul(&Dec::new(1, 22)).add(&mp.amount.q.abs().add(&Dec::new(1, 0)).mul(&x.abs()).mul(&Dec::new(1, 24)));
                        if !c.q.mul(&x.abs()).near(&num, &tol) {
                            return Err(format!("{}: the cost is {} {}, expected {} * {} / {}", at, c.q, c.sym, mp.amount.q, y.abs(), x.abs()));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn datetime(d: &NaiveDateTime) -> crate::model::DateTime {
    ((d.year(), d.month(), d.day()), (d.hour(), d.minute(), d.second()))
}

pub type PriceTable = BTreeMap<(String, String, crate::model::DateTime), Vec<Dec>>;

pub fn prices(journal: &Journal) -> R<PriceTable> {
    let mut out: PriceTable = BTreeMap::new();
    for (src, dst, when, q) in crate::hook::price_points(&journal.commodity_pool) {
        out.entry((src, dst, datetime(&when))).or_default().push(dec(&q)?);
    }
    Ok(out)
}

/// One line of the balance report.
#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub account: String,
    pub amounts: Vec<(Dec, String)>,
}

/// "Account NAME has balance AMOUNTS". No generated account name or symbol contains " has balance ".
/// The amounts are read leniently: a number, then the symbol up to the next number; symbols hold no
/// digits and no '-'.
pub fn parse_line(line: &str) -> R<Line> {
    let bad = || format!("report line {:?}", line);
    let rest = line.strip_prefix("Account ").ok_or_else(bad)?;
    let at = rest.find(" has balance ").or_else(|| rest.find(" has balance")).ok_or_else(bad)?;
    let account = rest[..at].to_string();
    let body = rest[at + " has balance".len()..].trim();
    let mut amounts = vec![];
    let chars: Vec<char> = body.chars().collect();
    let mut i = 0;
    while i < chars.len() {
        if chars[i].is_whitespace() || chars[i] == ',' {
            i += 1;
            continue;
        }
        let start = i;
        if chars[i] == '-' {
            i += 1;
        }
        while i < chars.len() && (chars[i].is_ascii_digit() || (chars[i] == '.' && chars.get(i + 1).map_or(false, |c| c.is_ascii_digit()))) {
            i += 1;
        }
        let q = Dec::parse(&chars[start..i].iter().collect::<String>()).ok_or_else(bad)?;
        let start = i;
        while i < chars.len() && !chars[i].is_ascii_digit() && chars[i] != '-' {
            i += 1;
        }
        let sym: String = chars[start..i].iter().collect();
        let sym = sym.trim().trim_end_matches(',').trim().to_string();
        amounts.push((q, sym));
    }
    Ok(Line { account, amounts })
}

/// The amounts as a map; an error if a commodity is listed twice.
pub fn line_map(l: &Line) -> R<BTreeMap<String, Dec>> {
    let mut out = BTreeMap::new();
    for (q, sym) in &l.amounts {
        if out.insert(sym.clone(), q.clone()).is_some() {
            return Err(format!("account {:?} lists {:?} twice", l.account, sym));
        }
    }
    Ok(out)
}
