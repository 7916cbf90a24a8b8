//! The reference model: what a journal means, computed from the data, not from the text.
use crate::ast::*;
use crate::dec::Dec;
use std::collections::{BTreeMap, BTreeSet};

pub type DateTime = (Date, (u32, u32, u32));

#[derive(Clone, Debug)]
pub enum MCost {
    None,
    /// given in the journal
    Given(Amt),
    /// implied by the two totals: amount * |y / x| in the commodity of y
    Implied { x: Dec, y: Dec, sym: String },
}

#[derive(Clone, Debug)]
pub struct MPost {
    pub account: String,
    pub amount: Amt,
    pub blank: bool,
    pub cost: MCost,
    pub note: Option<String>,
}

#[derive(Clone, Debug)]
pub struct MXact {
    pub kind: Kind,
    pub date: Date,
    pub aux: Option<Date>,
    pub payee: String,
    pub note: Option<String>,
    pub posts: Vec<MPost>,
}

/// A price is the quotient num/den.
#[derive(Clone, Debug)]
pub struct MPrice {
    pub num: Dec,
    pub den: Dec,
}

#[derive(Default)]
pub struct Model {
    pub xacts: Vec<MXact>,
    pub prices: BTreeMap<(String, String, DateTime), MPrice>,
    /// Every account named, and its ancestors. Not the root.
    pub accounts: BTreeSet<Vec<String>>,
    pub syms: BTreeSet<String>,
    /// first lot of each commodity
    pub lots: BTreeMap<String, (Option<Amt>, Option<Date>)>,
}

fn join_notes(first: Option<&String>, rest: &[String]) -> Option<String> {
    let all: Vec<&str> = first.into_iter().map(|x| x.as_str()).chain(rest.iter().map(|x| x.as_str())).collect();
    if all.is_empty() {
        None
    } else {
        Some(all.join("\n"))
    }
}

pub fn path(name: &str) -> Vec<String> {
    name.split(':').map(|x| x.to_string()).collect()
}

impl Model {
    pub fn of(items: &[Item]) -> Model {
        let mut m = Model::default();
        for item in items {
            m.add(item);
        }
        m
    }
    pub fn symbol(&mut self, s: &str) {
        self.sym(s)
    }
    fn sym(&mut self, s: &str) {
        if !s.is_empty() {
            self.syms.insert(s.to_string());
        }
    }
    pub fn account(&mut self, name: &str) {
        let p = path(name);
        for i in 1..=p.len() {
            self.accounts.insert(p[..i].to_vec());
        }
    }
    pub fn price(&mut self, p: &PriceA) {
        self.sym(&p.sym);
        self.sym(&p.price.sym);
        self.prices.insert(
            (p.sym.clone(), p.price.sym.clone(), (p.date, p.time.unwrap_or((0, 0, 0)))),
            MPrice { num: p.price.q.clone(), den: Dec::new(1, 0) },
        );
    }
    pub fn add(&mut self, item: &Item) {
        let x = match item {
            Item::Price(p) => {
                self.price(p);
                return;
            }
            Item::Xact(x) => x,
        };
        // totals per commodity, in order of appearance
        let mut totals: Vec<(String, Dec)> = vec![];
        let mut any_cost = false;
        let mut blanks = 0;
        for p in &x.posts {
            self.account(&p.account);
            if let Some(a) = &p.amount {
                self.sym(&a.sym);
                if p.lot_price.is_some() || p.lot_date.is_some() {
                    self.lots.entry(a.sym.clone()).or_insert((p.lot_price.clone(), p.lot_date));
                }
            }
            if let Some(l) = &p.lot_price {
                self.sym(&l.sym);
            }
            if let Some((_, c)) = &p.cost {
                any_cost = true;
                self.sym(&c.sym);
            }
            match contribution(p) {
                None => blanks += 1,
                Some(c) => match totals.iter_mut().find(|t| t.0 == c.sym) {
                    Some(t) => t.1 = t.1.add(&c.q),
                    None => totals.push((c.sym.clone(), c.q.clone())),
                },
            }
        }
        assert!(blanks <= 1);
        // a conversion is implied by two commodities, without any costs
        let implied = if blanks == 0 && !any_cost && totals.len() == 2 && !totals[0].1.is_zero() && !totals[1].1.is_zero() {
            Some((totals[0].clone(), totals[1].clone()))
        } else {
            None
        };
        let mut posts = vec![];
        for p in &x.posts {
            let (amount, blank) = match &p.amount {
                Some(a) => (a.clone(), false),
                None => {
                    assert!(totals.len() == 1, "generator: blank posting against {} commodities", totals.len());
                    (Amt { q: totals[0].1.neg(), sym: totals[0].0.clone() }, true)
                }
            };
            let cost = match (&p.cost, &implied) {
                (Some(_), _) => MCost::Given(contribution(p).unwrap()),
                (None, Some((fx, fy))) if amount.sym == fx.0 => {
                    MCost::Implied { x: fx.1.clone(), y: fy.1.clone(), sym: fy.0.clone() }
                }
                _ => MCost::None,
            };
            // the price established by the cost
            let price = match &cost {
                MCost::None => None,
                MCost::Given(c) if amount.q.is_zero() => Some((c.q.abs(), Dec::new(1, 0), c.sym.clone())),
                MCost::Given(c) => Some((c.q.abs(), amount.q.abs(), c.sym.clone())),
                // without an amount there is no cost, and no price
                MCost::Implied { .. } if amount.q.is_zero() => None,
                MCost::Implied { x, y, sym } => Some((y.abs(), x.abs(), sym.clone())),
            };
            if let Some((num, den, sym)) = price {
                if !num.is_zero() {
                    self.prices.insert((amount.sym.clone(), sym, (x.date, (0, 0, 0))), MPrice { num, den });
                }
            }
            posts.push(MPost {
                account: p.account.clone(),
                amount,
                blank,
                cost,
                note: join_notes(None, &p.comments),
            });
        }
        self.xacts.push(MXact {
            kind: x.kind,
            date: x.date,
            aux: x.aux,
            payee: x.payee.clone().unwrap_or("Unknown Payee".into()),
            note: join_notes(x.note.as_ref(), &x.comments),
            posts,
        });
    }

    /// Totals per account (root included, as the empty path) and commodity, over the subtree.
    pub fn totals(&self) -> BTreeMap<Vec<String>, BTreeMap<String, Dec>> {
        let mut out: BTreeMap<Vec<String>, BTreeMap<String, Dec>> = BTreeMap::new();
        out.insert(vec![], BTreeMap::new());
        for a in &self.accounts {
            out.insert(a.clone(), BTreeMap::new());
        }
        for x in &self.xacts {
            for p in &x.posts {
                let full = path(&p.account);
                for i in 0..=full.len() {
                    let t = out.get_mut(&full[..i]).unwrap().entry(p.amount.sym.clone()).or_insert(Dec::zero());
                    *t = t.add(&p.amount.q);
                }
            }
        }
        out
    }
    /// Totals of the account's own postings.
    pub fn own(&self) -> BTreeMap<Vec<String>, BTreeMap<String, Dec>> {
        let mut out: BTreeMap<Vec<String>, BTreeMap<String, Dec>> = BTreeMap::new();
        for x in &self.xacts {
            for p in &x.posts {
                let t = out.entry(path(&p.account)).or_default().entry(p.amount.sym.clone()).or_insert(Dec::zero());
                *t = t.add(&p.amount.q);
            }
        }
        out
    }
}
