//! The guarded hook of the library. Should it not build against the library's current internals, the
//! harness is built without it: the properties that only it can show give no answer then, the others
//! leave the price history out.
#[cfg(ledger_verif)]
pub use ledger_rs_lib::verif::{find_price, price_nodes, price_points};
#[cfg(ledger_verif)]
pub const AVAILABLE: bool = true;

#[cfg(not(ledger_verif))]
mod without {
    use chrono::NaiveDateTime;
    use ledger_rs_lib::{amount::Quantity, commodity::Commodity, pool::CommodityPool};
    pub const AVAILABLE: bool = false;
    pub fn price_points(_: &CommodityPool) -> Vec<(String, String, NaiveDateTime, Quantity)> {
        vec![]
    }
    pub fn price_nodes(pool: &CommodityPool) -> usize {
        pool.len()
    }
    pub fn find_price(_: &CommodityPool, _: *const Commodity, _: *const Commodity, _: NaiveDateTime, _: NaiveDateTime) -> Option<(NaiveDateTime, Quantity, String)> {
        None
    }
}
#[cfg(not(ledger_verif))]
pub use without::*;

/// quantity, symbol and rest, as the public scanner gives them; None if its interface has changed.
#[cfg(verif_scan)]
pub fn scan(text: &str) -> Option<(String, String, String)> {
    let (tok, rest) = ledger_rs_lib::scanner::scan_amount(text);
    Some((tok.quantity.to_string(), tok.symbol.to_string(), rest.to_string()))
}
#[cfg(not(verif_scan))]
pub fn scan(_: &str) -> Option<(String, String, String)> {
    None
}

/// The lot of a commodity: none, or its price and date. The outer None: it can not be seen.
#[cfg(ledger_verif_lots)]
pub fn lot(pool: &ledger_rs_lib::pool::CommodityPool, symbol: &str) -> Option<Option<(Option<ledger_rs_lib::amount::Amount>, Option<chrono::NaiveDate>)>> {
    Some(ledger_rs_lib::verif::lot(pool, symbol))
}
#[cfg(not(ledger_verif_lots))]
pub fn lot(_: &ledger_rs_lib::pool::CommodityPool, _: &str) -> Option<Option<(Option<ledger_rs_lib::amount::Amount>, Option<chrono::NaiveDate>)>> {
    None
}
