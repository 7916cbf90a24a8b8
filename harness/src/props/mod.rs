use crate::ast::*;
use crate::dec::Dec;
use crate::lib;
use crate::model::*;
use crate::render::{self, Render, Style};
use crate::snap::*;
use crate::src::Src;
use crate::{Ctx, Prop};
use ledger_rs_lib::amount::{Amount, Quantity};
use ledger_rs_lib::journal::Journal;
use ledger_rs_lib::post::Post;
use ledger_rs_lib::xact::Xact;

mod accounts;
mod histories;
mod pieces;
mod prices;
mod reading;
mod refusal;
mod reports;
mod sources;

pub static ALL: &[Prop] = &[
    reading::C01, reading::C02, reading::C03, reading::C04, reading::C05, reports::C06, accounts::C07, accounts::C08,
    accounts::C09, prices::C10, prices::C11, sources::C12, sources::C13, prices::C14, refusal::C15, refusal::C16,
    reports::C17, prices::C18, sources::C19, reports::C20,
    histories::C21, histories::C22, histories::C23, pieces::C24, pieces::C25,
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}

pub type R = Result<(), String>;

struct Pieces<'a>(&'a [u8], usize);
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// Reads the text in the way this case takes: there are several, and they all have to do the same.
pub fn read_into(text: &str, j: &mut Journal) {
    match crate::ENTRY.load(std::sync::atomic::Ordering::Relaxed) {
        0..=3 => ledger_rs_lib::parse_text(text, j),
        4 | 5 => {
            j.read(std::io::Cursor::new(text));
        }
        6 => {
            j.read(Pieces(text.as_bytes(), 5));
        }
        _ => {
            // in the scratch folder, which is the current one
            std::fs::write("entry.ledger", text).expect("scratch file");
            ledger_rs_lib::parse_file("entry.ledger", j);
        }
    }
}

/// Reads a journal the generator made to be valid.
pub fn read_valid(text: &str) -> Result<Journal, String> {
    lib(|| {
        let mut j = Journal::new();
        read_into(text, &mut j);
        j
    })
    .map_err(|m| format!("a valid journal was refused: {}", m))
}

/// A snapshot whose failures (links that lead nowhere) are violations.
pub fn snapshot(j: &Journal, m: &Model) -> Result<Snap, String> {
    lib(|| snap(j, Some(&m.syms))).map_err(|e| format!("the journal could not be walked: {}", e))?
}

pub fn spell(s: &mut Src, items: &[Item]) -> String {
    if s.chance(2, 3) {
        render::free(s, items)
    } else {
        render::plain(s, items)
    }
}

pub fn classify(ctx: &mut Ctx, items: &[Item], text: &str) {
    let mut posts = 0;
    let mut accounts = std::collections::BTreeSet::new();
    let mut syms = std::collections::BTreeSet::new();
    for i in items {
        match i {
            Item::Price(_) => ctx.class("price directive"),
            Item::Xact(x) => {
                ctx.class(&format!("kind {:?}", x.kind));
                posts += x.posts.len();
                ctx.class_if(x.posts.len() > 20, "more than 20 postings in a transaction");
                ctx.class_if(x.posts.len() >= 5, "5 or more postings in a transaction");
                for p in &x.posts {
                    accounts.insert(&p.account);
                    ctx.class_if(p.cost.is_some(), "cost");
                    ctx.class_if(p.lot_price.is_some() || p.lot_date.is_some(), "lot");
                    ctx.class_if(p.account.matches(':').count() > 8, "deep account");
                    if let Some(a) = &p.amount {
                        syms.insert(&a.sym);
                        ctx.class_if(a.q.is_neg(), "negative amount");
                        ctx.class_if(a.q.is_zero(), "zero amount");
                        ctx.class_if(a.q.digits() > 17, "more than 17 digits");
                        ctx.class_if(a.sym.is_empty(), "amount without commodity");
                    }
                }
            }
        }
    }
    ctx.class_if(items.len() > 30, "more than 30 items");
    ctx.class_if(accounts.len() > 100, "more than 100 accounts");
    ctx.class_if(syms.len() > 100, "more than 100 commodities");
    ctx.class_if(text.contains("\r\n"), "CRLF");
    ctx.class_if(text.lines().any(|l| l.len() > 8000), "line longer than 8000 bytes");
    ctx.class_if(posts > 100, "more than 100 postings");
}

pub fn quantity(d: &Dec) -> Quantity {
    Quantity::from_str(&d.to_string()).expect("a quantity in the library's range")
}

pub fn lib_amount(j: &mut Journal, a: &Amt) -> Amount {
    let c = j.commodity_pool.find_or_create(&a.sym, None);
    Amount::new(quantity(&a.q), Some(c))
}

/// Adds the transaction through the programming interface instead of text.
pub fn add_by_api(j: &mut Journal, x: &XactA) {
    let date = chrono::NaiveDate::from_ymd_opt(x.date.0, x.date.1, x.date.2);
    let mut xact = Xact::new(date, x.payee.as_deref().unwrap_or("Unknown Payee"), x.note.clone());
    for p in &x.posts {
        let acct = j.register_account(&p.account).expect("account");
        let amount = p.amount.as_ref().map(|a| lib_amount(j, a));
        let cost = p.cost.as_ref().map(|_| lib_amount(j, &contribution(p).unwrap()));
        xact.add_post(Post::new(acct, std::ptr::null(), amount, cost, None));
    }
    let ptr = j.add_xact(xact) as *const Xact;
    ledger_rs_lib::xact::finalize(ptr, j);
}
