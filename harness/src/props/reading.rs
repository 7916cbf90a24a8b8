use super::*;
use std::collections::BTreeMap;

pub const C01: Prop = Prop {
    id: "C01",
    case: c01,
    quick: 120_000,
    thorough: 1_500_000,
    rule: "A generated journal (or transactions built through the API) in random spelling. Non-trivial: at least one transaction has a blank posting; distinct by text.",
};
fn c01(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { kinds: [1, 6, 85, 4, 3, 1], prices: 3, notes: 8, ..Cfg::default() };
    let items = gen_journal(s, &cfg);
    let m = Model::of(&items);
    let api = s.chance(1, 6);
    let text;
    let j;
    if api {
        text = format!("(through the API)\n{}", render::plain(s, &items));
        ctx.text = text.clone();
        ctx.class("API");
        j = lib(|| {
            let mut j = Journal::new();
            for i in &items {
                if let Item::Xact(x) = i {
                    add_by_api(&mut j, x);
                }
            }
            j
        })
        .map_err(|e| format!("a valid transaction was refused: {}", e))?;
    } else {
        text = spell(s, &items);
        ctx.text = text.clone();
        j = read_valid(&text)?;
    }
    classify(ctx, &items, &text);
    ctx.nontrivial = m.xacts.iter().any(|x| x.posts.iter().any(|p| p.blank));
    let sn = snapshot(&j, &m)?;
    compare(&m, &sn, Aspects { blanks: true, amounts: true, accounts: true, given_costs: true, ..Aspects::default() })?;
    // the transaction as read balances
    for (i, (mx, x)) in m.xacts.iter().zip(&sn.xacts).enumerate() {
        if mx.posts.iter().any(|p| p.blank) {
            let mut sum = Dec::zero();
            for p in &x.posts {
                let c = p.cost.as_ref().or(p.amount.as_ref()).ok_or("a posting has no amount")?;
                sum = sum.add(&c.q);
            }
            if !sum.is_zero() {
                return Err(format!("transaction {} has a blank posting and sums to {}", i, sum));
            }
        }
    }
    Ok(())
}

pub const C02: Prop = Prop {
    id: "C02",
    case: c02,
    quick: 120_000,
    thorough: 1_500_000,
    rule: "A generated journal in random spelling, read and compared field by field with the data it was spelled from. Non-trivial: at least one transaction with two or more postings; distinct by text.",
};
fn c02(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { notes: 35, ..Cfg::default() };
    let items = gen_journal(s, &cfg);
    let m = Model::of(&items);
    let text = spell(s, &items);
    ctx.text = text.clone();
    classify(ctx, &items, &text);
    ctx.nontrivial = m.xacts.iter().any(|x| x.posts.len() >= 2);
    let how = s.below(2);
    let j = if how == 0 {
        read_valid(&text)?
    } else {
        let (j, n) = lib(|| {
            let mut j = Journal::new();
            let n = j.read(std::io::Cursor::new(text.as_bytes()));
            (j, n)
        })
        .map_err(|m| format!("a valid journal was refused: {}", m))?;
        if n != m.xacts.len() {
            return Err(format!("the reading counts {} transactions, the journal has {}", n, m.xacts.len()));
        }
        j
    };
    let sn = snapshot(&j, &m)?;
    compare(&m, &sn, Aspects { header: true, notes: true, accounts: true, amounts: true, ..Aspects::default() })?;
    // all_posts lists the same postings in the same order
    let all: Vec<usize> = lib(|| j.all_posts().iter().map(|p| *p as *const Post as usize).collect())?;
    let want: Vec<usize> = j.xacts.iter().flat_map(|x| x.posts.iter().map(|p| &**p as *const Post as usize)).collect();
    if all != want {
        return Err("the list of all postings differs from the postings of the transactions".into());
    }
    Ok(())
}

pub const C03: Prop = Prop {
    id: "C03",
    case: c03,
    quick: 80_000,
    thorough: 1_000_000,
    rule: "One journal (or one amount) spelled in two or more equivalent ways; the readings are compared. Non-trivial: the spellings differ and at least one was accepted; distinct by the spellings.",
};
fn c03(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.chance(1, 5) {
        return c03_amounts(s, ctx);
    }
    let cfg = Cfg { notes: 15, max_xacts: 8, ..Cfg::default() };
    let items = gen_journal(s, &cfg);
    let m = Model::of(&items);
    let a = if s.chance(1, 2) { render::plain(s, &items) } else { render::free(s, &items) };
    let b = render::free(s, &items);
    ctx.text = format!("--- one spelling\n{}\n--- another spelling\n{}", a, b);
    classify(ctx, &items, &b);
    let ja = read_valid(&a);
    let jb = read_valid(&b);
    match (ja, jb) {
        (Ok(mut ja), Ok(mut jb)) => {
            ctx.nontrivial = a != b;
            super::prices::check_lots(&mut ja, &m)?;
            super::prices::check_lots(&mut jb, &m)?;
            let (sa, sb) = (snapshot(&ja, &m)?, snapshot(&jb, &m)?);
            diff_snap(&sa, &sb)?;
            let (pa, pb) = lib(|| (prices(&ja), prices(&jb)))?;
            if pa? != pb? {
                return Err("the two spellings establish different prices".into());
            }
            let (ra, rb) = lib(|| {
                (ledger_rs_lib::report::balance_report(&ja), ledger_rs_lib::report::balance_report(&jb))
            })?;
            same_lines(&ra, &rb)
        }
        (Err(_), Err(_)) => {
            ctx.class("both refused");
            Ok(())
        }
        (Err(e), _) => Err(format!("only the first spelling is refused: {}", e)),
        (_, Err(e)) => Err(format!("only the second spelling is refused: {}", e)),
    }
}

/// Report lines, compared by account and by numeric value.
pub fn same_lines(a: &[String], b: &[String]) -> R {
    if a.len() != b.len() {
        return Err(format!("reports of {} and {} lines", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(b) {
        let (lx, ly) = (parse_line(x)?, parse_line(y)?);
        if lx.account != ly.account || line_map(&lx)? != line_map(&ly)? {
            return Err(format!("report lines differ: {:?} and {:?}", x, y));
        }
    }
    Ok(())
}

pub fn diff_snap(a: &Snap, b: &Snap) -> R {
    if a == b {
        return Ok(());
    }
    if a.xacts.len() != b.xacts.len() {
        return Err(format!("{} and {} transactions", a.xacts.len(), b.xacts.len()));
    }
    for (i, (x, y)) in a.xacts.iter().zip(&b.xacts).enumerate() {
        if x != y {
            return Err(format!("transaction {} differs:\n{:?}\n{:?}", i, x, y));
        }
    }
    Err(format!("the accounts differ: {:?}, {:?}", a.accounts, b.accounts))
}

fn c03_amounts(s: &mut Src, ctx: &mut Ctx) -> R {
    ctx.class("amount alone");
    let syms = gen_symbols(s, 1);
    let q = gen_q(s);
    let a = Amt { q, sym: if s.chance(1, 8) { String::new() } else { syms[0].clone() } };
    let n = s.size(2, 5);
    let mut j = Journal::new();
    let mut texts = vec![];
    for _ in 0..n {
        let mut t = Render::new(s, Style::Free).amount(&a);
        if s.chance(1, 3) {
            t = format!("{}{}", " ".repeat(s.size(1, 4)), t);
        }
        texts.push(t);
    }
    ctx.text = format!("amounts {:?}", texts);
    ctx.nontrivial = texts.iter().any(|t| *t != texts[0]);
    for t in &texts {
        let got = lib(|| ledger_rs_lib::parser::parse_amount(t, &mut j)).map_err(|e| format!("{:?} was refused: {}", t, e))?;
        let got = got.ok_or_else(|| format!("{:?} was read as nothing", t))?;
        let got = amount(&got, None)?;
        if got != a {
            return Err(format!("{:?} was read as {} {:?}", t, got.q, got.sym));
        }
        let scanned = lib(|| crate::hook::scan(t)).map_err(|e| format!("{:?} was refused: {}", t, e))?;
        if let Some((q, sym, rest)) = scanned {
            if Dec::parse(&q) != Some(a.q.clone()) || sym != a.sym || !rest.is_empty() {
                return Err(format!("{:?} was scanned as {:?} and {:?}, rest {:?}", t, q, sym, rest));
            }
        }
    }
    if !a.sym.is_empty() && lib(|| j.commodity_pool.len())? != 1 {
        return Err("the spellings of one commodity became several commodities".into());
    }
    Ok(())
}

pub const C04: Prop = Prop {
    id: "C04",
    case: c04,
    quick: 120_000,
    thorough: 1_500_000,
    rule: "A generated journal with many unit and total costs and lots. Non-trivial: at least one posting has a cost; distinct by text.",
};
fn c04(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { kinds: [0, 45, 30, 3, 5, 17], costs: 70, lots: 25, notes: 5, prices: 5, bare: 5, huge: false, ..Cfg::default() };
    let items = gen_journal(s, &cfg);
    let m = Model::of(&items);
    ctx.nontrivial = m.xacts.iter().any(|x| x.posts.iter().any(|p| matches!(p.cost, MCost::Given(_))));
    let api = s.chance(1, 8);
    let mut j = if api {
        ctx.text = format!("(through the API)\n{}", render::plain(s, &items));
        ctx.class("API");
        lib(|| {
            let mut j = Journal::new();
            for i in &items {
                if let Item::Xact(x) = i {
                    add_by_api(&mut j, x);
                }
            }
            j
        })
        .map_err(|e| format!("a valid transaction was refused: {}", e))?
    } else {
        ctx.text = spell(s, &items);
        read_valid(&ctx.text)?
    };
    let text = ctx.text.clone();
    classify(ctx, &items, &text);
    let sn = snapshot(&j, &m)?;
    compare(&m, &sn, Aspects { amounts: true, given_costs: true, ..Aspects::default() })?;
    if !api {
        super::prices::check_lots(&mut j, &m)?;
    }
    Ok(())
}

pub const C05: Prop = Prop {
    id: "C05",
    case: c05,
    quick: 120_000,
    thorough: 1_500_000,
    rule: "A generated journal, mostly of transactions in two commodities without costs. Non-trivial: at least one such transaction; distinct by text.",
};
fn c05(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { kinds: [0, 8, 5, 8, 75, 4], lots: 6, notes: 5, prices: 3, bare: 4, huge: false, ..Cfg::default() };
    let items = gen_journal(s, &cfg);
    let m = Model::of(&items);
    let api = s.chance(1, 8);
    let j;
    if api {
        ctx.text = format!("(through the API)\n{}", render::plain(s, &items));
        ctx.class("API");
        j = lib(|| {
            let mut j = Journal::new();
            for i in &items {
                if let Item::Xact(x) = i {
                    add_by_api(&mut j, x);
                }
            }
            j
        })
        .map_err(|e| format!("a valid transaction was refused: {}", e))?;
    } else {
        ctx.text = spell(s, &items);
        j = read_valid(&ctx.text)?;
    }
    let text = ctx.text.clone();
    classify(ctx, &items, &text);
    ctx.nontrivial = m.xacts.iter().any(|x| x.posts.iter().any(|p| matches!(p.cost, MCost::Implied { .. })));
    let sn = snapshot(&j, &m)?;
    compare(&m, &sn, Aspects { amounts: true, given_costs: true, implied_costs: true, ..Aspects::default() })?;
    // with the costs, the transaction balances in every commodity
    for (i, (mx, x)) in m.xacts.iter().zip(&sn.xacts).enumerate() {
        if !mx.posts.iter().any(|p| matches!(p.cost, MCost::Implied { .. })) {
            continue;
        }
        let mut sums: BTreeMap<&str, (Dec, Dec)> = BTreeMap::new();
        for p in &x.posts {
            let c = p.cost.as_ref().or(p.amount.as_ref()).unwrap();
            let e = sums.entry(&c.sym).or_insert((Dec::zero(), Dec::zero()));
            e.0 = e.0.add(&c.q);
            let amt = p.amount.as_ref().unwrap().q.abs();
            e.1 = e.1.add(&c.q.abs().mul(&Dec::new(1, 22))).add(&amt.add(&Dec::new(1, 0)).mul(&Dec::new(1, 22)));
        }
        for (sym, (sum, tol)) in sums {
            if !sum.near(&Dec::zero(), &tol) {
                return Err(format!("transaction {} with its conversion sums to {} {}", i, sum, sym));
            }
        }
    }
    Ok(())
}
