use super::*;
use chrono::{NaiveDate, NaiveDateTime};
use std::collections::{BTreeMap, BTreeSet};

pub const C10: Prop = Prop {
    id: "C10",
    case: c10,
    quick: 150_000,
    thorough: 1_200_000,
    rule: "A generated journal with price directives, costs and implied conversions; the whole price history compared with the prices the data establishes. Non-trivial: at least two prices; distinct by text.",
};
fn c10(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg {
        kinds: [0, 30, 25, 5, 30, 10],
        costs: 60,
        lots: 15,
        notes: 2,
        prices: 40,
        bare: 4,
        huge: false,
        zero_total_cost: false,
        ..Cfg::default()
    };
    let mut items = gen_journal(s, &cfg);
    if s.chance(1, 40) {
        // one pair, many times, hardly changing
        let p = Pools::gen(s, 1, 2, &cfg);
        let qs = [gen_price_q(s), gen_price_q(s)];
        let (a, b) = (p.syms[0].clone(), p.sym_not(s, &p.syms[0]));
        for _ in 0..s.size(2, 14) {
            let q = if s.chance(9, 10) { qs[0].clone() } else { qs[1].clone() };
            let back = s.chance(1, 10);
            let (a, b) = if back { (&b, &a) } else { (&a, &b) };
            let price = PriceA { date: gen_date(s), time: None, sym: a.clone(), price: Amt { q, sym: b.clone() } };
            let k = s.below(items.len() as u64 + 1) as usize;
            items.insert(k, Item::Price(price));
        }
        ctx.class("a price repeated");
    }
    if s.chance(1, 1200) {
        // very many prices of one pair
        let p = Pools::gen(s, 1, 2, &cfg);
        let (a, b) = (p.syms[0].clone(), p.sym_not(s, &p.syms[0]));
        for _ in 0..s.size(20, 3000) {
            let time = if s.chance(1, 3) { Some(gen_time(s)) } else { None };
            items.push(Item::Price(PriceA { date: gen_date(s), time, sym: a.clone(), price: Amt { q: gen_price_q(s), sym: b.clone() } }));
        }
        ctx.class("very many prices of one pair");
    }
    let m = Model::of(&items);
    let text = spell(s, &items);
    ctx.text = text.clone();
    classify(ctx, &items, &text);
    ctx.nontrivial = m.prices.len() >= 2;
    let mut seen = BTreeSet::new();
    for i in &items {
        if let Item::Price(p) = i {
            ctx.class_if(!seen.insert((p.sym.clone(), p.price.sym.clone(), p.date, p.time)), "two prices at the same time");
        }
    }
    let j = if s.chance(1, 5) && items.len() > 1 {
        // in two parts
        let cut = s.size(1, items.len() - 1);
        let (a, b) = (spell(s, &items[..cut]), spell(s, &items[cut..]));
        ctx.text = format!("{}\n--- and\n{}", a, b);
        let mut j = Journal::new();
        for part in [a, b] {
            lib(|| read_into(&part, &mut j)).map_err(|e| format!("a valid journal was refused: {}", e))?;
        }
        j
    } else {
        read_valid(&text)?
    };
    let got = lib(|| prices(&j)).map_err(|e| format!("the price history could not be walked: {}", e))??;
    check_prices(&m, &got)
}

pub fn check_prices(m: &Model, got: &PriceTable) -> R {
    if !crate::hook::AVAILABLE {
        return Ok(());
    }
    for (key, want) in &m.prices {
        let Some(have) = got.get(key) else {
            return Err(format!("there is no price of {} in {} at {:?}", key.0, key.1, key.2));
        };
        if have.len() != 1 {
            return Err(format!("there are {} prices of {} in {} at {:?}", have.len(), key.0, key.1, key.2));
        }
        if !have[0].is_quotient(&want.num, &want.den) {
            return Err(format!("the price of {} in {} at {:?} is {}, expected {} / {}", key.0, key.1, key.2, have[0], want.num, want.den));
        }
    }
    for key in got.keys() {
        if !m.prices.contains_key(key) {
            return Err(format!("an unexpected price of {} in {} at {:?}", key.0, key.1, key.2));
        }
    }
    Ok(())
}

/// Looking up a pair that has a direct price gives the latest of them.
pub fn check_direct_lookups(j: &Journal, m: &Model) -> R {
    if !crate::hook::AVAILABLE {
        return Ok(());
    }
    let mut latest: BTreeMap<(&String, &String), (&DateTime, &crate::model::MPrice)> = BTreeMap::new();
    for ((a, b, t), p) in &m.prices {
        // in the order of time
        latest.insert((a, b), (t, p));
    }
    for ((a, b), (t, p)) in latest.into_iter().take(12) {
        let got = lib(|| {
            let pool = &j.commodity_pool;
            let (x, y) = (pool.find(a).map_or(std::ptr::null(), |c| c as *const ledger_rs_lib::commodity::Commodity), pool.find(b).map_or(std::ptr::null(), |c| c as *const ledger_rs_lib::commodity::Commodity));
            if x.is_null() || y.is_null() {
                return None;
            }
            crate::hook::find_price(pool, x, y, to_datetime(&((9999, 12, 31), (23, 59, 59))), to_datetime(&((0, 1, 1), (0, 0, 0))))
        })
        .map_err(|e| format!("looking up the price of {} in {} failed: {}", a, b, e))?;
        let ok = match &got {
            Some((when, q, sym)) => datetime(when) == *t && sym == b && dec(q)?.is_quotient(&p.num, &p.den),
            None => false,
        };
        if !ok {
            return Err(format!("the price of {} in {} is found as {:?}, expected {} / {} at {:?}", a, b, got.map(|(w, q, s)| (w, q.to_string(), s)), p.num, p.den, t));
        }
    }
    Ok(())
}

/// The price of each commodity's first lot, as an exchange uses it.
pub fn check_lots(j: &mut Journal, m: &Model) -> R {
    for sym in &m.syms {
        check_lot(j, m, sym, m.lots.get(sym))?;
    }
    Ok(())
}

pub fn check_lot(j: &mut Journal, m: &Model, sym: &str, lot: Option<&(Option<Amt>, Option<Date>)>) -> R {
    let want = lot.and_then(|l| l.0.clone());
    let basis = lib(|| {
        let c = j.commodity_pool.find_or_create(sym, None);
        let moment = to_datetime(&((2023, 1, 1), (0, 0, 0)));
        let mut f = |cost: i32| j.commodity_pool.exchange(&Amount::new(1.into(), Some(c)), &Amount::new(cost.into(), None), false, moment).0.basis_cost;
        (f(3), f(4))
    })
    .map_err(|e| format!("exchanging {:?} failed: {}", sym, e))?;
    let comms = commodity_map(j, m.syms.iter());
    let (a, b) = (amount(&basis.0, Some(&comms))?, amount(&basis.1, Some(&comms))?);
    let got = if a == b { Some(a) } else { None };
    if got != want {
        let show = |x: &Option<Amt>| x.as_ref().map_or("none".to_string(), |a| format!("{} {}", a.q, a.sym));
        return Err(format!("the lot price of {:?} is {}, the journal says {}", sym, show(&got), show(&want)));
    }
    // and its date, where it can be seen
    if let Some(seen) = lib(|| crate::hook::lot(&j.commodity_pool, sym))? {
        let seen = match seen {
            None => None,
            Some((p, d)) => Some((p.map(|p| amount(&p, Some(&comms))).transpose()?, d.map(|d| datetime(&d.and_hms_opt(0, 0, 0).unwrap()).0))),
        };
        if seen.as_ref() != lot {
            return Err(format!("the lot of {:?} is {:?}, the journal says {:?}", sym, seen, lot));
        }
    }
    Ok(())
}

pub const C11: Prop = Prop {
    id: "C11",
    case: c11,
    quick: 120_000,
    thorough: 1_000_000,
    rule: "A random history of prices among 2 to 12 commodities; every pair is looked up and compared with a search over the data. Non-trivial: at least one pair needs a chain of two or more prices; distinct by the history.",
};

fn to_datetime(d: &DateTime) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(d.0 .0, d.0 .1, d.0 .2).unwrap().and_hms_opt(d.1 .0, d.1 .1, d.1 .2).unwrap()
}

fn c11(s: &mut Src, ctx: &mut Ctx) -> R {
    let shape = s.weighted(&[6, 2, 2]);
    let large = s.chance(1, 300);
    let n = match shape {
        0 if large => s.size(10, 40),
        0 => s.size(2, 6),
        1 if large => s.size(12, 24),
        1 => s.size(3, 12), // chain
        _ => s.size(5, 9),  // layered: several shortest chains
    };
    let syms: Vec<String> = gen_symbols(s, n);
    let n = syms.len();
    let mut edges: Vec<(usize, usize)> = vec![];
    match shape {
        0 => {
            let e = if large { s.size(n, n * 6) } else { s.size(1, n * 2) };
            for _ in 0..e {
                let a = s.below(n as u64) as usize;
                let b = s.below(n as u64) as usize;
                if a != b {
                    edges.push((a, b));
                }
            }
        }
        1 => {
            let mut order: Vec<usize> = (0..n).collect();
            s.shuffle(&mut order);
            for w in order.windows(2) {
                edges.push((w[0], w[1]));
            }
            // chords that lead back, or a little ahead
            for _ in 0..s.size(0, 3) {
                let a = s.below(n as u64) as usize;
                let b = s.below(n as u64) as usize;
                if a > b {
                    edges.push((order[a], order[b]));
                } else if a < b && b - a <= 2 {
                    edges.push((order[a], order[b]));
                }
            }
            s.shuffle(&mut edges);
        }
        _ => {
            let mid = n - 2;
            for k in 0..mid {
                if s.chance(4, 5) {
                    edges.push((0, k + 1));
                }
                if s.chance(4, 5) {
                    edges.push((k + 1, n - 1));
                }
            }
            s.shuffle(&mut edges);
        }
    }
    let nd = s.size(1, 5);
    let dates: Vec<Date> = (0..nd).map(|_| gen_date(s)).collect();
    let max_digits = if n > 12 { 1 } else if n > 7 { 2 } else { 4 };
    ctx.class_if(large, "large graph");
    // the history, in the order it is told
    let mut history: Vec<(usize, usize, DateTime, Dec)> = vec![];
    let mut many = s.chance(1, 400);
    let steady = if s.chance(1, 15) { Some(Dec::new(s.range(1, 10i64.pow(max_digits) - 1) as i128, s.below(2) as u32)) } else { None };
    for (a, b) in edges {
        let count = if many { s.size(300, 1500) } else { s.size(1, 4) };
        ctx.class_if(many, "very many prices of a pair");
        for _ in 0..count {
            let d = if many { gen_date(s) } else { *s.pick(&dates) };
            let t = if s.chance(1, 2) { (0, 0, 0) } else { gen_time(s) };
            let q = Dec::new(s.range(1, 10i64.pow(max_digits) - 1) as i128, s.below(if max_digits == 1 { 2 } else { 3 }) as u32);
            let q = match s.below(80) {
                1 => Dec::zero(),
                2 => q.neg(),
                3..=70 if steady.is_some() => steady.clone().unwrap(),
                _ => q,
            };
            history.push((a, b, (d, t), q));
        }
        many = false;
    }
    s.shuffle(&mut history);
    let mut j = Journal::new();
    for sym in &syms {
        if s.chance(1, 2) {
            lib(|| j.commodity_pool.find_or_create(sym, None))?;
        }
    }
    let by_text = s.below(3);
    // lookups at some points on the way, and at the end
    let mut stops = vec![history.len()];
    for _ in 0..s.below(3) {
        stops.push(s.below(history.len() as u64 + 1) as usize);
    }
    stops.sort();
    let mut told = 0;
    for stop in stops {
        for (a, b, t, q) in &history[told..stop] {
            let p = PriceA { date: t.0, time: if t.1 == (0, 0, 0) { None } else { Some(t.1) }, sym: syms[*a].clone(), price: Amt { q: q.clone(), sym: syms[*b].clone() } };
            let line = Render::new(s, Style::Plain).price(&p);
            ctx.text += &line;
            let r = match by_text {
                0 => lib(|| read_into(&line, &mut j)),
                1 => lib(|| j.commodity_pool.parse_price_directive(line.trim_end())),
                _ => lib(|| {
                    let src = j.commodity_pool.find_or_create(&p.sym, None);
                    let price = lib_amount(&mut j, &p.price);
                    j.commodity_pool.add_price(src, to_datetime(t), price);
                }),
            };
            r.map_err(|e| format!("a price was refused: {}", e))?;
        }
        told = stop;
        ctx.text += "; lookups\n";
        for sym in &syms {
            lib(|| j.commodity_pool.find_or_create(sym, None))?;
        }
        let before = lib(|| prices(&j))??;
        c11_lookups(ctx, &mut j, &syms, &history[..told])?;
        if lib(|| prices(&j))?? != before {
            return Err("looking up prices changed the price history".into());
        }
    }
    Ok(())
}

fn c11_lookups(ctx: &mut Ctx, j: &mut Journal, syms: &[String], history: &[(usize, usize, DateTime, Dec)]) -> R {
    let n = syms.len();
    // the model: the latest price of each pair
    let mut latest: BTreeMap<(usize, usize), (DateTime, Dec)> = BTreeMap::new();
    let mut all: BTreeMap<(usize, usize), BTreeMap<DateTime, Dec>> = BTreeMap::new();
    for (a, b, t, q) in history {
        all.entry((*a, *b)).or_default().insert(*t, q.clone());
    }
    for (k, v) in &all {
        let (t, q) = v.iter().next_back().unwrap();
        latest.insert(*k, (*t, q.clone()));
    }
    // distances
    let dist_from = |a: usize| {
        let mut d = vec![usize::MAX; n];
        d[a] = 0;
        let mut queue = std::collections::VecDeque::from([a]);
        while let Some(x) = queue.pop_front() {
            for (k, _) in &latest {
                if k.0 == x && d[k.1] == usize::MAX {
                    d[k.1] = d[x] + 1;
                    queue.push_back(k.1);
                }
            }
        }
        d
    };
    let min_t = (0, 1, 1);
    for a in 0..n {
        let d = dist_from(a);
        for b in 0..n {
            if a == b {
                continue;
            }
            let got = lib(|| {
                let (x, y) = (j.commodity_pool.find_or_create(&syms[a], None), j.commodity_pool.find_or_create(&syms[b], None));
                crate::hook::find_price(&j.commodity_pool, x, y, to_datetime(&((9999, 12, 31), (23, 59, 59))), to_datetime(&(min_t, (0, 0, 0))))
            })
            .map_err(|e| format!("looking up the price of {} in {} failed: {}", syms[a], syms[b], e))?;
            let what = format!("the price of {} in {}", syms[a], syms[b]);
            match (d[b], got) {
                (usize::MAX, None) => ctx.class("no chain"),
                (usize::MAX, Some(g)) => return Err(format!("{} is {}, without any chain of prices", what, g.1)),
                (_, None) => return Err(format!("{} was not found", what)),
                (hops, Some((when, q, sym))) => {
                    if sym != syms[b] {
                        return Err(format!("{} is given in {:?}", what, sym));
                    }
                    let (when, q) = (datetime(&when), dec(&q)?);
                    ctx.class_if(hops == 1, "direct price");
                    ctx.class_if(hops == 2, "two hops");
                    ctx.class_if(hops > 2, "three or more hops");
                    if hops >= 2 {
                        ctx.nontrivial = true;
                    }
                    // every shortest chain is an acceptable answer
                    let mut ok = false;
                    let mut options = vec![];
                    let mut stack: Vec<(usize, Dec, DateTime)> = vec![(a, Dec::new(1, 0), ((9999, 12, 31), (23, 59, 59)))];
                    while let Some((x, prod, least)) = stack.pop() {
                        if x == b {
                            if prod == q && least == when {
                                ok = true;
                            }
                            options.push(format!("{} at {:?}", prod, least));
                            continue;
                        }
                        for (k, (t, r)) in &latest {
                            if k.0 == x && d[k.1] == d[x] + 1 && d[k.1] <= d[b] {
                                stack.push((k.1, prod.mul(r), least.min(*t)));
                            }
                        }
                    }
                    ctx.class_if(options.len() > 1, "several shortest chains");
                    if !ok {
                        options.truncate(5);
                        return Err(format!("{} is {} at {:?}, expected {:?}", what, q, when, options));
                    }
                }
            }
        }
    }
    Ok(())
}

pub const C14: Prop = Prop {
    id: "C14",
    case: c14,
    quick: 600_000,
    thorough: 10_000_000,
    rule: "Two or three generated decimals (up to 28 digits) and a sequence of operations, each result compared with exact arithmetic wherever the exact result is representable. Non-trivial: both operands non-zero and at least one operation compared; distinct by operands and operations.",
};
fn wide(s: &mut Src) -> Dec {
    let d = match s.weighted(&[30, 25, 25, 10, 10]) {
        0 => Dec::new(s.range(-1000, 1000) as i128, 0),
        1 => Dec::new(s.range(-1_000_000, 1_000_000) as i128, s.below(7) as u32),
        2 => {
            let digits = s.size(1, 14);
            let mut m = 0i128;
            for _ in 0..digits {
                m = m * 10 + s.below(10) as i128;
            }
            Dec::new(m, s.below(15) as u32)
        }
        3 => {
            let digits = s.size(15, 28);
            let mut m = 0i128;
            for _ in 0..digits {
                m = m * 10 + s.below(10) as i128;
            }
            Dec::new(m, s.below(29) as u32)
        }
        _ => {
            // around powers of two and ten
            let m: i128 = *s.pick(&[
                0xffff_ffff, 0x1_0000_0000, i32::MAX as i128, i64::MAX as i128, u64::MAX as i128, (u64::MAX as i128) + 1, 10i128.pow(18), 10i128.pow(27), (1i128 << 96) - 1,
            ]);
            Dec::new(m, s.below(29) as u32)
        }
    };
    if s.chance(2, 5) {
        d.neg()
    } else {
        d
    }
}
fn aligned_fit(a: &Dec, b: &Dec) -> bool {
    let k = a.scale().max(b.scale());
    a.rescaled(k).fits() && b.rescaled(k).fits()
}
/// A balance: amounts added and taken away, each commodity kept apart.
fn c14_balance(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.size(1, 5);
    let syms = gen_symbols(s, n);
    let mut j = Journal::new();
    let comms: Vec<_> = std::iter::once(None)
        .chain(syms.iter().map(|x| Some(j.commodity_pool.find_or_create(x, None))))
        .collect();
    let empty = || ledger_rs_lib::account::Account::new("x").total();
    let mut bal = empty();
    let mut want: BTreeMap<usize, Dec> = BTreeMap::new();
    let mut apply = |want: &mut BTreeMap<usize, Dec>, c: usize, q: Dec| {
        let t = want.entry(c).or_insert(Dec::zero());
        *t = t.add(&q);
    };
    for _ in 0..s.size(1, 14) {
        let c = s.below(comms.len() as u64) as usize;
        let q = if s.chance(1, 4) { gen_q(s) } else { gen_q_small(s) };
        let a = Amount::new(quantity(&q), comms[c]);
        match s.below(4) {
            0 => {
                ctx.text += &format!("add {} [{}]; ", q, c);
                lib(|| bal.add(&a))?;
                apply(&mut want, c, q);
            }
            1 => {
                ctx.text += &format!("+= {} [{}]; ", q, c);
                lib(|| bal += a)?;
                apply(&mut want, c, q);
            }
            2 => {
                ctx.text += &format!("-= {} [{}]; ", q, c);
                lib(|| bal -= a)?;
                apply(&mut want, c, q.neg());
            }
            _ => {
                let mut other = empty();
                ctx.text += "+= (";
                for _ in 0..s.size(0, 4) {
                    let c = s.below(comms.len() as u64) as usize;
                    let q = gen_q_small(s);
                    ctx.text += &format!("{} [{}], ", q, c);
                    lib(|| other.add(&Amount::new(quantity(&q), comms[c])))?;
                    apply(&mut want, c, q);
                }
                ctx.text += "); ";
                lib(|| bal += other)?;
            }
        }
        let mut got: BTreeMap<usize, Dec> = BTreeMap::new();
        for a in &bal.amounts {
            let addr = a.get_commodity().map(|c| c as *const _);
            let Some(c) = comms.iter().position(|x| *x == addr) else {
                return Err("the balance has a commodity of its own".into());
            };
            if got.insert(c, dec(&a.quantity)?).is_some() {
                return Err(format!("the balance lists commodity [{}] twice", c));
            }
        }
        // a commodity that came to nothing may be listed or not
        let (mut got, mut want) = (got, want.clone());
        got.retain(|_, q| !q.is_zero());
        want.retain(|_, q| !q.is_zero());
        if got != want {
            return Err(format!("the balance is {:?}, expected {:?}", got, want));
        }
    }
    ctx.class("balance");
    ctx.nontrivial = want.len() > 1;
    Ok(())
}
fn c14(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.chance(1, 10) {
        return c14_balance(s, ctx);
    }
    let syms = gen_symbols(s, 2);
    let mut j = Journal::new();
    let comms: Vec<Option<*const ledger_rs_lib::commodity::Commodity>> = vec![
        None,
        Some(j.commodity_pool.find_or_create(&syms[0], None)),
        Some(j.commodity_pool.find_or_create(syms.get(1).map(|x| x.as_str()).unwrap_or("QQ"), None)),
    ];
    let a = wide(s);
    let b = match s.below(12) {
        // the least there can be beside a
        1 if a.scale() > 0 => a.add(&Dec::new(s.range(-1, 1) as i128, a.scale())),
        2 => Dec::new(s.range(-1, 1) as i128, 28).add(&if a.abs() < Dec::new(7, 0) { a.clone() } else { Dec::zero() }),
        3 => a.clone(),
        _ => wide(s),
    };
    let b = if b.fits() { b } else { a.clone() };
    let (ca, cb) = (s.below(3) as usize, s.below(3) as usize);
    let mut ops = vec![];
    let mut done = 0;
    ctx.text = format!("a = {} [{}], b = {} [{}]", a, ca, b, cb);
    let err = |op: &str, got: &str, want: &str| Err(format!("{} gave {}, expected {}", op, got, want));
    // reading and showing
    let qa = lib(|| Quantity::from_str(&a.to_string()))?.ok_or_else(|| format!("{} was not read as a quantity", a))?;
    let qb = lib(|| Quantity::from_str(&b.to_string()))?.ok_or_else(|| format!("{} was not read as a quantity", b))?;
    if dec(&qa)? != a {
        return err("reading", &qa.to_string(), &a.to_string());
    }
    if lib(|| Quantity::from(a.to_string().as_str()))? != qa {
        return Err(format!("{} is read in two ways", a));
    }
    if qa.is_zero() != a.is_zero() || (!a.is_zero() && qa.is_sign_positive() == a.is_neg()) {
        return Err(format!("the sign of {} is misjudged", a));
    }
    if (qa == qb) != (a == b) || (qa < qb) != (a < b) || (qa > qb) != (a > b) {
        return Err(format!("{} and {} are compared wrongly", a, b));
    }
    if a.scale() == 0 {
        if let Ok(i) = a.to_string().parse::<i32>() {
            if i.abs() < 1 << 18 && dec(&lib(|| Quantity::from(i as f32 / 4.0))?)?.mul(&Dec::new(4, 0)) != a {
                return Err(format!("the number {}/4 is converted wrongly", i));
            }
            if lib(|| Quantity::from(i))? != qa || lib(|| -> i32 { qa.into() })? != i {
                return Err(format!("the integer {} is converted wrongly", i));
            }
        }
    }
    if s.chance(1, 4) {
        // to a float's precision
        let d = Dec::new(s.range(-999_999, 999_999) as i128, s.below(12) as u32);
        let f: f32 = d.to_string().parse().unwrap();
        if dec(&lib(|| Quantity::from(f))?)?.sub(&d).abs() > d.abs().mul(&Dec::new(1, 6)) {
            return Err(format!("the number {} is converted to {}", d, Quantity::from(f)));
        }
    }
    let amt = |q: Quantity, c: usize| Amount::new(q, comms[c]);
    let comm_of = |x: &Amount| x.get_commodity().map(|c| c as *const _);
    let n = s.size(1, 6);
    for _ in 0..n {
        let op = s.below(9);
        match op {
            0 | 1 | 2 => {
                // a + b, a += b, a -= b
                let want = if op == 2 { a.sub(&b) } else { a.add(&b) };
                let fits = aligned_fit(&a, &b) && want.fits();
                ops.push(["+", "+=", "-="][op as usize]);
                if fits {
                    let got = lib(|| match op {
                        0 => qa + qb,
                        1 => {
                            let mut x = qa;
                            x += qb;
                            x
                        }
                        _ => {
                            let mut x = qa;
                            x -= qb;
                            x
                        }
                    })
                    .map_err(|e| format!("{} {:?} {} failed: {}", a, ops.last(), b, e))?;
                    done += 1;
                    if dec(&got)? != want {
                        return err(&format!("quantity {} {} {}", a, ops.last().unwrap(), b), &got.to_string(), &want.to_string());
                    }
                }
                let r = lib(|| match op {
                    0 => amt(qa, ca) + amt(qb, cb),
                    1 => {
                        let mut x = amt(qa, ca);
                        x += amt(qb, cb);
                        x
                    }
                    _ => {
                        let mut x = amt(qa, ca);
                        x -= amt(qb, cb);
                        x
                    }
                });
                if ca != cb {
                    if let Ok(x) = r {
                        return Err(format!("{} [{}] {} {} [{}], of different commodities, gave {}", a, ca, ops.last().unwrap(), b, cb, x.quantity));
                    }
                    ctx.class("different commodities");
                } else if fits {
                    let x = r?;
                    if dec(&x.quantity)? != want || comm_of(&x) != comms[ca] {
                        return err(&format!("amount {} {} {}", a, ops.last().unwrap(), b), &x.quantity.to_string(), &want.to_string());
                    }
                }
            }
            3 => {
                // add
                ops.push("add");
                let want = a.add(&b);
                let r = lib(|| {
                    let mut x = amt(qa, ca);
                    x.add(&amt(qb, cb));
                    x
                });
                if ca != cb {
                    if r.is_ok() {
                        return Err("amounts of different commodities were added".into());
                    }
                } else if aligned_fit(&a, &b) && want.fits() {
                    let x = r?;
                    done += 1;
                    if dec(&x.quantity)? != want || comm_of(&x) != comms[ca] {
                        return err(&format!("amount {} add {}", a, b), &x.quantity.to_string(), &want.to_string());
                    }
                }
            }
            4 | 5 => {
                // a * b, a *= b
                let want = a.mul(&b);
                ops.push(if op == 4 { "*" } else { "*=" });
                if want.fits() {
                    let (q, x) = lib(|| {
                        if op == 4 {
                            (qa * qb, amt(qa, ca) * amt(qb, cb))
                        } else {
                            let mut q = qa;
                            q *= qb;
                            let mut x = amt(qa, ca);
                            x *= amt(qb, cb);
                            (q, x)
                        }
                    })
                    .map_err(|e| format!("{} * {} failed: {}", a, b, e))?;
                    done += 1;
                    if dec(&q)? != want || dec(&x.quantity)? != want {
                        return err(&format!("{} {} {}", a, ops.last().unwrap(), b), &q.to_string(), &want.to_string());
                    }
                    if comm_of(&x) != if ca == 0 { comms[cb] } else { comms[ca] } {
                        return Err(format!("the product of [{}] and [{}] is in the wrong commodity", ca, cb));
                    }
                }
            }
            6 => {
                ops.push("/");
                if !b.is_zero() && a.abs() < b.abs().mul(&Dec::new(10i128.pow(27), 0)) && aligned_fit(&a, &b) {
                    let (q, x) = lib(|| (qa / qb, amt(qa, ca) / amt(qb, cb))).map_err(|e| format!("{} / {} failed: {}", a, b, e))?;
                    done += 1;
                    let dq = dec(&q)?;
                    let diff = dq.mul(&b).sub(&a).abs();
                    let tol = dq.abs().mul(&Dec::new(1, 26)).add(&Dec::new(1, 27)).mul(&b.abs());
                    if diff > tol || x.quantity != q {
                        return err(&format!("{} / {}", a, b), &q.to_string(), "the quotient");
                    }
                    if comm_of(&x) != if ca == 0 { comms[cb] } else { comms[ca] } {
                        return Err(format!("the quotient of [{}] and [{}] is in the wrong commodity", ca, cb));
                    }
                }
            }
            7 => {
                ops.push("inverse");
                let (inv, mut x, abs) = (amt(qa, ca).inverse(), amt(qa, ca), amt(qa, ca).abs());
                x.invert();
                done += 1;
                for (what, y, want) in [("inverse", inv, a.neg()), ("invert", x, a.neg()), ("abs", abs, a.abs())] {
                    if dec(&y.quantity)? != want || comm_of(&y) != comms[ca] {
                        return err(&format!("{} of {}", what, a), &y.quantity.to_string(), &want.to_string());
                    }
                }
                if dec(&inv.inverse().quantity)? != a {
                    return Err(format!("the inverse of the inverse of {} is {}", a, inv.inverse().quantity));
                }
            }
            _ => {
                ops.push("copy");
                let x = amt(qa, ca);
                let y = Amount::copy_from(&x);
                if x != y || y.is_zero() != a.is_zero() || y.is_null() != (a.is_zero() && ca == 0) {
                    return Err(format!("a copy of {} [{}] differs", a, ca));
                }
                let mut z = y;
                z.remove_commodity();
                if z.get_commodity().is_some() || z.quantity != qa || !Amount::null().is_null() {
                    return Err("removing the commodity changed the quantity".into());
                }
                if (amt(qa, ca) == amt(qb, cb)) != (a == b && ca == cb) {
                    return Err(format!("{} [{}] and {} [{}] are compared wrongly", a, ca, b, cb));
                }
            }
        }
    }
    ctx.text += &format!(", {:?}", ops);
    ctx.class_if(a.digits() > 17 || b.digits() > 17, "more than 17 digits");
    ctx.class_if(done == 0, "nothing representable");
    ctx.nontrivial = done > 0 && !a.is_zero() && !b.is_zero();
    Ok(())
}

pub const C18: Prop = Prop {
    id: "C18",
    case: c18,
    quick: 300_000,
    thorough: 2_500_000,
    rule: "A generated journal with lots, and an amount and a cost, exchanged; the breakdown and the price compared with exact arithmetic. Non-trivial: amount and cost non-zero; distinct by text.",
};
fn c18(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut syms = gen_symbols(s, 3);
    while syms.len() < 3 {
        syms.push(format!("S{}", ["A", "B", "C"][syms.len()]));
    }
    let mut j = Journal::new();
    if s.chance(1, 20) {
        // after other commodities
        let k = s.size(1, 300);
        ctx.text += &format!("after {} other commodities\n", k);
        for k in 0..k {
            lib(|| j.commodity_pool.find_or_create(&format!("other {}", k), None))?;
        }
    }
    // lots, from a journal; the one first written for a commodity counts
    let mut lots: BTreeMap<String, Option<Amt>> = BTreeMap::new();
    let mut items = vec![];
    let n = if s.chance(1, 3) { 0 } else { s.size(1, 4) };
    for _ in 0..n {
        if s.chance(1, 6) {
            let price = Amt { q: gen_price_q(s), sym: syms[1].clone() };
            items.push(Item::Price(PriceA { date: gen_date(s), time: None, sym: syms[0].clone(), price }));
            continue;
        }
        let on = if s.chance(5, 6) { 0 } else { s.below(3) as usize };
        let with = s.chance(3, 4);
        let others: Vec<String> = syms.iter().enumerate().filter(|(i, _)| *i != on).map(|(_, x)| x.clone()).collect();
        // seldom in the commodity itself
        let lot_sym = if s.chance(1, 15) { syms[on].clone() } else { s.pick(&others).clone() };
        let price = if with && s.chance(4, 5) { Some(Amt { q: gen_price_q(s), sym: lot_sym }) } else { None };
        let date = if with && (s.chance(1, 2) || price.is_none()) { Some(gen_date(s)) } else { None };
        if with {
            ctx.class(if lots.contains_key(&syms[on]) { "second lot" } else { "lot" });
            lots.entry(syms[on].clone()).or_insert(price.clone());
        }
        let p = PostA {
            account: "A".into(),
            amount: Some(Amt { q: gen_price_q(s), sym: syms[on].clone() }),
            lot_price: price,
            lot_date: date,
            cost: None,
            comments: vec![],
        };
        let b = PostA { account: "B".into(), amount: None, lot_price: None, lot_date: None, cost: None, comments: vec![] };
        items.push(Item::Xact(XactA { kind: Kind::Blank, date: (2023, 1, 1), aux: None, payee: None, note: None, comments: vec![], posts: vec![p, b] }));
    }
    if !items.is_empty() {
        let text = spell(s, &items);
        ctx.text += &text;
        lib(|| read_into(&text, &mut j)).map_err(|e| format!("a valid journal was refused: {}", e))?;
    }
    let lot = lots.get(&syms[0]).cloned().flatten();
    let same = s.chance(1, 12);
    let amount_a = Amt { q: gen_q_small(s), sym: syms[0].clone() };
    let cost_a = Amt { q: gen_q_small(s), sym: if same {
            syms[0].clone()
        } else if s.chance(1, 20) {
            ctx.class("cost without a commodity");
            String::new()
        } else {
            s.pick(&syms[1..]).clone()
        } };
    // an amount without a commodity takes the other's in a product
    let per_unit = s.chance(1, 2) && !cost_a.sym.is_empty();
    let date = gen_date(s);
    let moment = to_datetime(&(date, (s.range(0, 23) as u32, 0, 0)));
    ctx.text += &format!("exchange {} {} for {} {}{}", amount_a.q, amount_a.sym, cost_a.q, cost_a.sym, if per_unit { " each" } else { "" });
    ctx.nontrivial = !amount_a.q.is_zero() && !cost_a.q.is_zero();
    let before = prices(&j)?;
    let (am, co) = lib(|| (lib_amount(&mut j, &amount_a), lib_amount(&mut j, &cost_a)))?;
    let (bd, price) = lib(|| j.commodity_pool.exchange(&am, &co, per_unit, moment)).map_err(|e| format!("the exchange failed: {}", e))?;
    if prices(&j)? != before {
        return Err("the exchange itself recorded a price".into());
    }
    let all: BTreeSet<String> = syms.iter().cloned().collect();
    let comms = commodity_map(&j, all.iter());
    let (ba, bf, bb) = (amount(&bd.amount, Some(&comms))?, amount(&bd.final_cost, Some(&comms))?, amount(&bd.basis_cost, Some(&comms))?);
    if ba != amount_a {
        return Err(format!("the exchanged amount is {} {}", ba.q, ba.sym));
    }
    let final_cost = Amt { q: if per_unit { cost_a.q.mul(&amount_a.q.abs()) } else { cost_a.q.clone() }, sym: cost_a.sym.clone() };
    if bf != final_cost {
        return Err(format!("the final cost is {} {}, expected {} {}", bf.q, bf.sym, final_cost.q, final_cost.sym));
    }
    let basis = match &lot {
        Some(l) => Amt { q: l.q.mul(&amount_a.q), sym: l.sym.clone() },
        None => final_cost,
    };
    if bb != basis {
        return Err(format!("the basis cost is {} {}, expected {} {}", bb.q, bb.sym, basis.q, basis.sym));
    }
    let (num, den) = if per_unit || amount_a.q.is_zero() { (cost_a.q.abs(), Dec::new(1, 0)) } else { (cost_a.q.abs(), amount_a.q.abs()) };
    match price {
        None => {
            if !num.is_zero() && !same {
                return Err("the exchange establishes no price".into());
            }
            ctx.class("no price");
        }
        Some(p) => {
            if num.is_zero() || same {
                return Err("the exchange establishes a price".into());
            }
            if p.commodity as usize != am.get_commodity().unwrap() as *const _ as usize {
                return Err("the price is of another commodity".into());
            }
            if p.datetime != moment {
                return Err(format!("the price is dated {:?}", p.datetime));
            }
            let q = amount(&p.price, Some(&comms))?;
            if q.sym != cost_a.sym || !q.q.is_quotient(&num, &den) {
                return Err(format!("the price is {} {}, expected {} / {} {}", q.q, q.sym, num, den, cost_a.sym));
            }
        }
    }
    Ok(())
}
