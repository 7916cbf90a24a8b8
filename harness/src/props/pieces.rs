use super::refusal::{bad_date, bad_number, BAD_NUMBERS};
use super::*;
use std::collections::BTreeSet;

pub const C24: Prop = Prop {
    id: "C24",
    case: c24,
    quick: 300_000,
    thorough: 3_000_000,
    rule: "A sequence of generated amounts, dates and price lines, in free spelling, some of them malformed, each read through the interface into one journal; the result is compared with the data. Non-trivial: at least 3 pieces, one of them with a commodity; distinct by the pieces.",
};

fn c24(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg::default();
    let ns = s.size(2, 5);
    let p = Pools::gen(s, 1, ns, &cfg);
    let mut j = Journal::new();
    let mut m = Model::default();
    let n = s.size(1, 10);
    for _ in 0..n {
        let sym = if s.chance(1, 6) { String::new() } else { s.pick(&p.syms).clone() };
        match s.weighted(&[6, 3, 2, 6, 1, 1, 1, 1, 1]) {
            0 => {
                let a = Amt { q: gen_any(s), sym };
                let lead = " ".repeat(s.below(3) as usize);
                let trail = " ".repeat(s.below(3) as usize);
                let text = format!("{}{}{}", lead, Render::new(s, Style::Free).amount(&a), trail);
                ctx.text += &format!("amount {:?}\n", text);
                let got = lib(|| ledger_rs_lib::parser::parse_amount(&text, &mut j)).map_err(|e| format!("the amount {:?} was refused: {}", text, e))?;
                m.symbol(&a.sym);
                same_amount(&j, &m, got, &a)?;
                ctx.nontrivial |= n >= 3 && !a.sym.is_empty();
                // with something after it
                let rest = if a.sym.is_empty() { "@ 5 EUR" } else { *s.pick(&["@ 5 EUR", "@@ 5 EUR", "{20 EUR} [2023-04-01] @ 25 EUR", "[2023-04-01]", "x", "5"]) };
                let longer = format!("{} {}", text, rest);
                let scanned = lib(|| crate::hook::scan(&longer)).map_err(|e| format!("{:?} was refused: {}", longer, e))?;
                if let Some((q, sym, r)) = scanned {
                    if Dec::parse(&q) != Some(a.q.clone()) || sym != a.sym || r.trim() != rest {
                        return Err(format!("{:?} was scanned as {:?} and {:?}, rest {:?}", longer, q, sym, r));
                    }
                }
            }
            1 => {
                let a = Amt { q: gen_any(s), sym };
                let text = Render::new(s, Style::Free).lit(&a.q);
                ctx.text += &format!("amount of {:?} and {:?}\n", text, a.sym);
                let got = lib(|| ledger_rs_lib::parser::parse_amount_parts(&text, &a.sym, &mut j)).map_err(|e| format!("the amount was refused: {}", e))?;
                m.symbol(&a.sym);
                same_amount(&j, &m, got, &a)?;
                ctx.nontrivial |= n >= 3 && !a.sym.is_empty();
            }
            2 => {
                let d = gen_date(s);
                let text = Render::new(s, Style::Free).date(&d);
                ctx.text += &format!("date {:?}\n", text);
                let got = lib(|| ledger_rs_lib::parser::parse_datetime(&text)).map_err(|e| format!("reading the date {:?} failed: {}", text, e))?;
                match got {
                    Ok(t) if datetime(&t) == (d, (0, 0, 0)) => (),
                    other => return Err(format!("the date {:?} is read as {:?}", text, other)),
                }
            }
            3 => {
                let price = gen_price(s, &p);
                let line = Render::new(s, Style::Free).price(&price);
                let line = line.trim_end_matches(|c| c == '\n' || c == '\r');
                ctx.text += &format!("price line {:?}\n", line);
                lib(|| j.commodity_pool.parse_price_directive(line)).map_err(|e| format!("the price line {:?} was refused: {}", line, e))?;
                m.price(&price);
                ctx.nontrivial |= n >= 3;
            }
            4 => {
                ctx.text += "nothing\n";
                let got = lib(|| ledger_rs_lib::parser::parse_amount_parts("", "", &mut j)).map_err(|e| format!("reading nothing failed: {}", e))?;
                if got.is_some() {
                    return Err("nothing was read as an amount".into());
                }
            }
            5 => {
                let text = if !sym.is_empty() && s.chance(1, 6) { sym.clone() } else { bad_number(s, &sym) };
                ctx.text += &format!("malformed amount {:?}\n", text);
                if let Ok(got) = lib(|| ledger_rs_lib::parser::parse_amount(&text, &mut j)) {
                    return Err(format!("the amount {:?} is read as {:?}", text, got.map(|a| a.quantity.to_string())));
                }
                // the commodity may be known from now on
                known(&j, &mut m, &sym);
            }
            6 => {
                let text = if !sym.is_empty() && s.chance(1, 6) { "" } else { *s.pick(BAD_NUMBERS) };
                ctx.text += &format!("malformed amount of {:?} and {:?}\n", text, sym);
                if let Ok(got) = lib(|| ledger_rs_lib::parser::parse_amount_parts(text, &sym, &mut j)) {
                    return Err(format!("the amount {:?} is read as {:?}", text, got.map(|a| a.quantity.to_string())));
                }
                known(&j, &mut m, &sym);
            }
            7 => {
                let text = bad_date(s);
                ctx.text += &format!("malformed date {:?}\n", text);
                if let Ok(Ok(got)) = lib(|| ledger_rs_lib::parser::parse_datetime(&text)) {
                    return Err(format!("the date {:?} is read as {:?}", text, got));
                }
            }
            _ => {
                let price = gen_price(s, &p);
                let line = match s.below(3) {
                    0 => format!("P {} {} {} {}", bad_date(s), price.sym, price.price.q, price.price.sym),
                    1 => format!("P {} {} {} {} {}", date_str(&price.date), s.pick(&["25:00:00", "13:60:00", "13:00", "1300", "12:00:61"]), price.sym, price.price.q, price.price.sym),
                    _ => format!("P {} {} {} {}", date_str(&price.date), price.sym, s.pick(BAD_NUMBERS), price.price.sym),
                };
                ctx.text += &format!("malformed price line {:?}\n", line);
                if lib(|| j.commodity_pool.parse_price_directive(&line)).is_ok() {
                    return Err(format!("the price line {:?} was accepted", line));
                }
                known(&j, &mut m, &price.sym);
                known(&j, &mut m, &price.price.sym);
            }
        }
    }
    if j.commodity_pool.len() != m.syms.len() {
        return Err(format!("there are {} commodities, {} were named", j.commodity_pool.len(), m.syms.len()));
    }
    if !j.xacts.is_empty() || account_map(&j).len() != 1 {
        return Err("transactions or accounts were added".into());
    }
    if crate::hook::AVAILABLE {
        let got = lib(|| prices(&j))??;
        super::prices::check_prices(&m, &got)?;
    }
    Ok(())
}

fn gen_any(s: &mut Src) -> Dec {
    if s.chance(1, 2) {
        gen_q(s)
    } else {
        gen_q_small(s)
    }
}

fn known(j: &Journal, m: &mut Model, sym: &str) {
    if j.commodity_pool.find(sym).is_some() {
        m.symbol(sym);
    }
}

fn same_amount(j: &Journal, m: &Model, got: Option<Amount>, want: &Amt) -> R {
    let comms = commodity_map(j, m.syms.iter());
    match got {
        None => Err("an amount was read as nothing".into()),
        Some(a) => {
            let a = lib(|| amount(&a, Some(&comms)))??;
            if a == *want {
                Ok(())
            } else {
                Err(format!("the amount {} {:?} is read as {} {:?}", want.q, want.sym, a.q, a.sym))
            }
        }
    }
}

pub const C25: Prop = Prop {
    id: "C25",
    case: c25,
    quick: 45_000,
    thorough: 800_000,
    rule: "The elements of one generated journal are dealt out to several journals, which grow in turns (or in several threads at a time); some are looked at, dropped or exchanged in between; each is compared with the data dealt to it. Non-trivial: at least two journals with a transaction; distinct by the history.",
};

const EVERYTHING: Aspects =
    Aspects { header: true, notes: true, accounts: true, amounts: true, blanks: true, given_costs: true, implied_costs: true };

fn as_alone(j: &mut Journal, m: &Model) -> R {
    super::prices::check_lots(j, m)?;
    let sn = snapshot(j, m)?;
    compare(m, &sn, EVERYTHING)?;
    let mut accounts: BTreeSet<Vec<String>> = m.accounts.clone();
    accounts.insert(vec![]);
    if sn.accounts != accounts {
        return Err("the accounts are not the ones named in this journal".into());
    }
    if j.commodity_pool.len() != m.syms.len() {
        return Err(format!("there are {} commodities, {} were named in this journal", j.commodity_pool.len(), m.syms.len()));
    }
    super::accounts::check_links(j, &m.syms, &BTreeSet::new())?;
    if crate::hook::AVAILABLE {
        let got = lib(|| prices(j))??;
        super::prices::check_prices(m, &got)?;
        super::prices::check_direct_lookups(j, m)?;
    }
    let lines = lib(|| ledger_rs_lib::report::balance_report(j)).map_err(|e| format!("the balance report failed: {}", e))?;
    super::reports::lines_match(&lines, &m.totals())
}

fn c25(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { notes: 5, prices: 20, bulk: s.chance(1, 60), max_xacts: 20, huge: false, ..Cfg::default() };
    let mut items = gen_journal(s, &cfg);
    if s.chance(1, 2) {
        items.extend(gen_journal(s, &cfg));
    }
    let n = s.size(2, 4);
    if s.chance(1, 200) {
        // very many journals before
        let few = &items[..items.len().min(8)];
        let text = spell(s, few);
        let count = s.size(50, 1500);
        ctx.text += &format!("--- {} journals, each of them dropped\n{}", count, text);
        ctx.class("very many journals");
        for k in 0..count {
            let mut j = Journal::new();
            lib(|| read_into(&text, &mut j)).map_err(|e| format!("journal {}: a valid journal was refused: {}", k, e))?;
            if k % 97 == 0 {
                as_alone(&mut j, &Model::of(few)).map_err(|e| format!("journal {}: {}", k, e))?;
            }
        }
    }
    if s.chance(1, 12) {
        return at_a_time(s, ctx, &items, n);
    }
    if s.chance(1, 8) {
        return in_turn(s, ctx, &items, n);
    }
    let mut all: Vec<(Box<Journal>, Model)> = (0..n).map(|_| (Box::new(Journal::new()), Model::default())).collect();
    for i in &items {
        let k = s.below(n as u64) as usize;
        let text = spell(s, &[i.clone()]);
        ctx.text += &format!("--- journal {}\n{}", k, text);
        let (j, m) = &mut all[k];
        lib(|| read_into(&text, j)).map_err(|e| format!("journal {}: a valid element was refused: {}", k, e))?;
        m.add(i);
        match s.weighted(&[12, 2, 1, 1, 1]) {
            1 => {
                let k = s.below(n as u64) as usize;
                ctx.text += &format!("--- journal {} is looked at\n", k);
                { let (j, m) = &mut all[k]; as_alone(j, m) }.map_err(|e| format!("journal {}: {}", k, e))?;
            }
            2 => {
                let k = s.below(n as u64) as usize;
                ctx.text += &format!("--- journal {} is dropped and begun anew\n", k);
                all[k] = (Box::new(Journal::new()), Model::default());
                ctx.class("a journal dropped");
            }
            3 => {
                // the contents change places
                let (a, b) = (s.below(n as u64) as usize, s.below(n as u64) as usize);
                if a != b {
                    ctx.text += &format!("--- journals {} and {} change names\n", a, b);
                    all.swap(a, b);
                    ctx.class("journals changed names");
                }
            }
            4 => {
                let k = s.below(n as u64) as usize;
                let bad = *s.pick(&["2023-02-30 Payee\n", "nonsense\n", "2023-02-03 Payee\n    A  1 EUR\n    B  1 USD\n    C\n\n"]);
                // into a journal of its own
                ctx.text += &format!("--- another journal, to be refused, after journal {}\n{}", k, bad);
                let _ = lib(|| {
                    let mut other = Journal::new();
                    read_into(bad, &mut other);
                });
                ctx.class("another journal refused");
            }
            _ => (),
        }
    }
    ctx.nontrivial = all.iter().filter(|(_, m)| !m.xacts.is_empty()).count() >= 2;
    let text = ctx.text.clone();
    classify(ctx, &items, &text);
    // the order in which they are looked at and dropped does not matter either
    while !all.is_empty() {
        let k = s.below(all.len() as u64) as usize;
        let (mut j, m) = all.remove(k);
        as_alone(&mut j, &m).map_err(|e| format!("the journal with {} transactions: {}", m.xacts.len(), e))?;
    }
    Ok(())
}

/// One journal after the other, in the same memory: each is dropped before the next one begins.
fn in_turn(s: &mut Src, ctx: &mut Ctx, items: &[Item], n: usize) -> R {
    ctx.class("in the same memory");
    let mut with = 0;
    let mut last: Option<Item> = None;
    for k in 0..n + 2 {
        // some of the elements; often the one that the journal before ended with comes first
        let mut part: Vec<Item> = vec![];
        for _ in 0..s.size(1, 6) {
            if !items.is_empty() {
                part.push(items[s.below(items.len() as u64) as usize].clone());
            }
        }
        if let (Some(l), true) = (&last, s.chance(1, 2)) {
            part.insert(0, l.clone());
        }
        let texts: Vec<String> = part.iter().map(|i| spell(s, &[i.clone()])).collect();
        ctx.text += &format!("--- journal {}\n{}", k, texts.concat());
        let m = Model::of(&part);
        if !m.xacts.is_empty() {
            with += 1;
        }
        last = part.last().cloned();
        let look = s.chance(1, 2);
        crate::alloc::reusing(|| -> R {
            let mut j = Journal::new();
            for t in &texts {
                lib(|| read_into(t, &mut j)).map_err(|e| format!("journal {}: a valid element was refused: {}", k, e))?;
            }
            if look {
                as_alone(&mut j, &m).map_err(|e| format!("journal {}: {}", k, e))?;
            }
            Ok(())
        })?;
    }
    ctx.nontrivial = with >= 2;
    Ok(())
}

/// The journals grow in threads of their own, at a time.
fn at_a_time(s: &mut Src, ctx: &mut Ctx, items: &[Item], n: usize) -> R {
    let mut parts: Vec<Vec<Item>> = vec![vec![]; n];
    for i in items {
        let k = s.below(n as u64) as usize;
        parts[k].push(i.clone());
    }
    let texts: Vec<Vec<String>> = parts.iter().map(|p| p.iter().map(|i| spell(s, &[i.clone()])).collect()).collect();
    for (k, t) in texts.iter().enumerate() {
        ctx.text += &format!("--- journal {}, in a thread\n{}", k, t.concat());
    }
    ctx.class("in threads");
    ctx.nontrivial = parts.iter().filter(|p| p.iter().any(|i| matches!(i, Item::Xact(_)))).count() >= 2;
    let barrier = std::sync::Barrier::new(n);
    let results: Vec<R> = std::thread::scope(|sc| {
        let handles: Vec<_> = parts
            .iter()
            .zip(&texts)
            .enumerate()
            .map(|(k, (part, texts))| {
                let barrier = &barrier;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        barrier.wait();
                        let r = lib(|| -> R {
                            let mut j = Journal::new();
                            for t in texts {
                                lib(|| ledger_rs_lib::parse_text(t, &mut j)).map_err(|e| format!("a valid element was refused: {}", e))?;
                            }
                            as_alone(&mut j, &Model::of(part))
                        });
                        r.and_then(|r| r).map_err(|e| format!("journal {}: {}", k, e))
                    })
                    .expect("thread")
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or(Err("a thread failed".into()))).collect()
    });
    results.into_iter().collect()
}
