use super::reading::same_lines;
use super::*;
use std::collections::BTreeMap;

pub const C06: Prop = Prop {
    id: "C06",
    case: c06,
    quick: 80_000,
    thorough: 1_200_000,
    rule: "A generated journal; its balance report and the per-account totals compared with sums taken over the data. Non-trivial: at least two accounts with postings; distinct by text.",
};

pub fn lines_match(lines: &[String], want: &BTreeMap<Vec<String>, BTreeMap<String, Dec>>) -> R {
    if lines.len() != want.len() {
        return Err(format!("the report has {} lines for {} accounts", lines.len(), want.len()));
    }
    for (text, (path, totals)) in lines.iter().zip(want) {
        let line = parse_line(text)?;
        if line.account != path.join(":") {
            return Err(format!("report line {:?} is in the place of account {:?}", text, path.join(":")));
        }
        if line_map(&line)? != *totals {
            let t: Vec<String> = totals.iter().map(|(s, q)| format!("{} {}", q, s)).collect();
            return Err(format!("report line {:?}, the total is {:?}", text, t.join(", ")));
        }
    }
    Ok(())
}

fn c06(s: &mut Src, ctx: &mut Ctx) -> R {
    let items = gen_journal(s, &Cfg { notes: 4, ..Cfg::default() });
    let mut m = Model::of(&items);
    let text = spell(s, &items);
    ctx.text = text.clone();
    classify(ctx, &items, &text);
    let mut j;
    if s.chance(1, 4) {
        // read in parts, with reports in between
        j = Journal::new();
        let parts = s.size(2, 4);
        let mut cuts: Vec<usize> = (1..parts).map(|_| s.below(items.len() as u64 + 1) as usize).collect();
        cuts.sort();
        cuts.push(items.len());
        ctx.text.clear();
        ctx.class("read in parts, with reports in between");
        let mut from = 0;
        for cut in cuts {
            let part = spell(s, &items[from..cut]);
            from = cut;
            ctx.text += &format!("--- part\n{}", part);
            lib(|| read_into(&part, &mut j)).map_err(|e| format!("a valid journal was refused: {}", e))?;
            let want = Model::of(&items[..cut]).totals();
            let lines = lib(|| ledger_rs_lib::report::balance_report(&j)).map_err(|e| format!("the balance report failed: {}", e))?;
            lines_match(&lines, &want)?;
        }
    } else {
        j = read_valid(&text)?;
    }
    if s.chance(1, 12) {
        // accounts without postings
        let n = s.size(1, 3);
        for name in gen_accounts(s, n) {
            ctx.text += &format!("\n(register {:?})", name);
            lib(|| j.register_account(&name))?;
            m.account(&name);
        }
        ctx.class("account without postings");
    }
    ctx.nontrivial = m.own().len() >= 2;
    let want = m.totals();
    let lines = lib(|| ledger_rs_lib::report::balance_report(&j)).map_err(|e| format!("the balance report failed: {}", e))?;
    lines_match(&lines, &want)?;
    // the accounts' own amounts and totals
    let own = m.own();
    let comms = commodity_map(&j, m.syms.iter());
    let map = account_map(&j);
    let check = lib(|| -> R {
        for a in j.master.flatten_account_tree() {
            let path = map.get(&(a as *const _ as usize)).ok_or("an account outside of the tree")?;
            for (what, amounts, want) in [("amount", a.amount().amounts, own.get(path)), ("total", a.total().amounts, want.get(path))] {
                let mut got = BTreeMap::new();
                for x in &amounts {
                    let x = amount(x, Some(&comms))?;
                    if got.insert(x.sym.clone(), x.q).is_some() {
                        return Err(format!("the {} of {:?} lists {:?} twice", what, path, x.sym));
                    }
                }
                if got != want.cloned().unwrap_or_default() {
                    return Err(format!("the {} of account {:?} is {:?}", what, path.join(":"), got.iter().map(|(s, q)| format!("{} {}", q, s)).collect::<Vec<_>>()));
                }
            }
        }
        Ok(())
    });
    check.map_err(|e| format!("the accounts could not be totalled: {}", e))?
}

pub const C17: Prop = Prop {
    id: "C17",
    case: c17,
    quick: 60_000,
    thorough: 1_000_000,
    rule: "A generated journal, the same transactions in another order, and the journal in two halves read apart; the balances are compared. Non-trivial: at least two transactions and an order that differs; distinct by text.",
};
fn balances(text: &str) -> Result<BTreeMap<String, BTreeMap<String, Dec>>, String> {
    let j = read_valid(text)?;
    let lines = lib(|| ledger_rs_lib::report::balance_report(&j)).map_err(|e| format!("the balance report failed: {}", e))?;
    let mut out = BTreeMap::new();
    for l in &lines {
        let l = parse_line(l)?;
        let map = line_map(&l)?;
        if out.insert(l.account.clone(), map).is_some() {
            return Err(format!("account {:?} is reported twice", l.account));
        }
    }
    Ok(out)
}
fn sum(a: &BTreeMap<String, BTreeMap<String, Dec>>, b: &BTreeMap<String, BTreeMap<String, Dec>>) -> BTreeMap<String, BTreeMap<String, Dec>> {
    let mut out = a.clone();
    for (acct, m) in b {
        let e = out.entry(acct.clone()).or_default();
        for (sym, q) in m {
            let t = e.entry(sym.clone()).or_insert(Dec::zero());
            *t = t.add(q);
        }
    }
    out
}
fn c17(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { notes: 4, bulk: s.chance(1, 3), ..Cfg::default() };
    let items = gen_journal(s, &cfg);
    let mut moved = items.clone();
    s.shuffle(&mut moved);
    let a = spell(s, &items);
    let b = render::plain(s, &moved);
    let cut = s.below(items.len() as u64 + 1) as usize;
    let (h1, h2) = (render::plain(s, &items[..cut]), render::plain(s, &items[cut..]));
    ctx.text = format!("{}\n--- in another order\n{}", a, b);
    classify(ctx, &items, &a);
    ctx.nontrivial = items.len() >= 2 && b != a;
    ctx.evals = 4;
    let (ba, bb) = (balances(&a)?, balances(&b)?);
    if ba != bb {
        return Err(format!("the balances depend on the order of the transactions: {}", first_diff(&ba, &bb)));
    }
    let both = sum(&balances(&h1)?, &balances(&h2)?);
    if ba != both {
        return Err(format!("the balances are not the sums of those of the first {} items and of the rest: {}", cut, first_diff(&ba, &both)));
    }
    Ok(())
}
fn first_diff(a: &BTreeMap<String, BTreeMap<String, Dec>>, b: &BTreeMap<String, BTreeMap<String, Dec>>) -> String {
    for (k, v) in a {
        if b.get(k) != Some(v) {
            return format!("account {:?}: {:?} and {:?}", k, v.iter().map(|(s, q)| format!("{} {}", q, s)).collect::<Vec<_>>(), b.get(k).map(|v| v.iter().map(|(s, q)| format!("{} {}", q, s)).collect::<Vec<_>>()));
        }
    }
    "different accounts".into()
}

pub const C20: Prop = Prop {
    id: "C20",
    case: c20,
    quick: 30_000,
    thorough: 400_000,
    rule: "A generated journal read several times, each time with other hash keys; the reports are compared byte for byte. Non-trivial: at least 3 accounts; distinct by text.",
};
fn c20(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { notes: 4, bare: 25, bulk: s.chance(1, 10), ..Cfg::default() };
    let items = gen_journal(s, &cfg);
    let m = Model::of(&items);
    let text = spell(s, &items);
    ctx.text = text.clone();
    classify(ctx, &items, &text);
    ctx.nontrivial = m.accounts.len() >= 3;
    let n = 4;
    ctx.evals = n;
    let mut first: Option<(Vec<String>, Vec<String>, Snap, PriceTable)> = None;
    for k in 0..n {
        let seed = s.below(1 << 32) + k;
        crate::HASH_SEED.store(seed, std::sync::atomic::Ordering::Relaxed);
        let one = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || -> Result<_, String> {
                    let j = read_valid(&text)?;
                    let (b, a) = lib(|| (ledger_rs_lib::report::balance_report(&j), ledger_rs_lib::report::report_accounts(&j)))?;
                    let again = lib(|| (ledger_rs_lib::report::balance_report(&j), ledger_rs_lib::report::report_accounts(&j)))?;
                    if (&b, &a) != (&again.0, &again.1) {
                        return Err("a report differs when it is made again".into());
                    }
                    let sn = snapshot(&j, &m)?;
                    let p = lib(|| prices(&j))??;
                    Ok((b, a, sn, p))
                })
                .unwrap()
                .join()
                .unwrap()
        })?;
        match &first {
            None => first = Some(one),
            Some(f) => {
                if f.0 != one.0 {
                    let d = f.0.iter().zip(&one.0).find(|(a, b)| a != b);
                    return Err(format!("the balance report differs between readings: {:?}", d));
                }
                if f.1 != one.1 {
                    return Err(format!("the accounts report differs between readings: {:?} and {:?}", f.1, one.1));
                }
                super::reading::diff_snap(&f.2, &one.2)?;
                if f.3 != one.3 {
                    return Err("the prices differ between readings".into());
                }
            }
        }
    }
    let _ = same_lines;
    Ok(())
}
