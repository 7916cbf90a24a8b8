use super::refusal::malformed;
use super::*;
use ledger_rs_lib::account::Account;
use std::collections::BTreeMap;

const EVERYTHING: Aspects =
    Aspects { header: true, notes: true, accounts: true, amounts: true, blanks: true, given_costs: true, implied_costs: true };

pub const C21: Prop = Prop {
    id: "C21",
    case: c21,
    quick: 120_000,
    thorough: 1_000_000,
    rule: "A generated journal and a sequence of reports, lookups, totals and exchanges on it; the state of the journal before and after is compared, and every answer with the same question's earlier answer. Non-trivial: at least 3 accounts and 4 questions; distinct by text and questions.",
};

#[derive(PartialEq)]
struct State {
    snap: Snap,
    prices: PriceTable,
    posts: BTreeMap<String, Vec<usize>>,
    commodities: usize,
    nodes: usize,
}

fn state(j: &Journal, m: &Model) -> Result<State, String> {
    let snap = snapshot(j, m)?;
    lib(|| {
        let mut posts = BTreeMap::new();
        for (addr, path) in account_map(j) {
            // SAFETY: the address was found by walking the tree just now
            let a = unsafe { &*(addr as *const Account) };
            posts.insert(path.join(":"), a.posts.iter().map(|p| *p as usize).collect());
        }
        Ok(State {
            snap,
            prices: prices(j)?,
            posts,
            commodities: j.commodity_pool.len(),
            nodes: crate::hook::price_nodes(&j.commodity_pool),
        })
    })?
}

fn amounts(b: &[Amount]) -> Result<Vec<String>, String> {
    b.iter().map(|a| amount(a, None).map(|a| format!("{} {}", a.q, a.sym))).collect()
}

fn c21(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { notes: 6, prices: 25, costs: 40, lots: 20, bulk: s.chance(1, 30), huge: false, ..Cfg::default() };
    let items = gen_journal(s, &cfg);
    let mut m = Model::of(&items);
    let text = spell(s, &items);
    ctx.text = text.clone();
    classify(ctx, &items, &text);
    let mut j = read_valid(&text)?;
    if s.chance(1, 4) {
        // and accounts without postings, commodities without amounts
        for name in { let n = s.size(1, 10); gen_accounts(s, n) } {
            lib(|| j.register_account(&name)).map_err(|e| format!("registering {:?} failed: {}", name, e))?;
            ctx.text += &format!("; account {:?}\n", name);
            m.account(&name);
        }
        for sym in { let n = s.size(1, 3); gen_symbols(s, n) } {
            lib(|| j.commodity_pool.find_or_create(&sym, None)).map_err(|e| format!("creating {:?} failed: {}", sym, e))?;
            ctx.text += &format!("; commodity {:?}\n", sym);
            m.symbol(&sym);
        }
        ctx.class("registered accounts");
    }
    let m = m;
    let before = state(&j, &m)?;
    let names: Vec<String> = m.accounts.iter().map(|p| p.join(":")).collect();
    let syms: Vec<String> = m.syms.iter().cloned().collect();
    let mut answers: BTreeMap<String, String> = BTreeMap::new();
    let n = s.size(1, 14);
    for _ in 0..n {
        let kind = s.below(12);
        let name = match s.weighted(&[16, 2, 2, 1]) {
            0 if !names.is_empty() => s.pick(&names).clone(),
            // below a known account, or above
            1 if !names.is_empty() => format!("{}:{}", s.pick(&names), gen_segment(s)),
            2 => format!("{}:{}", gen_segment(s), gen_segment(s)),
            _ => gen_segment(s),
        };
        let sym = if syms.is_empty() || s.chance(1, 6) { "NOSUCH".to_string() } else { s.pick(&syms).clone() };
        let other = if syms.is_empty() { "NOSUCH".to_string() } else { s.pick(&syms).clone() };
        let q = gen_q_small(s);
        let c = gen_q_small(s);
        let per_unit = s.chance(1, 2);
        let (question, answer): (String, Result<Result<String, String>, String>) = match kind {
            0 => ("balance report".into(), lib(|| Ok(format!("{:?}", ledger_rs_lib::report::balance_report(&j))))),
            1 => ("accounts report".into(), lib(|| Ok(format!("{:?}", ledger_rs_lib::report::report_accounts(&j))))),
            2 => (format!("find account {:?}", name), lib(|| Ok(format!("{:?}", j.find_account(&name).map(|a| a.fullname().to_string()))))),
            3 => (
                format!("total of {:?}", name),
                lib(|| match j.find_account(&name) {
                    None => Ok("none".to_string()),
                    Some(a) => {
                        let mut t = a.total();
                        let text = amounts(&t.amounts)?.join(", ");
                        // what is done with the answer does not matter
                        for x in t.amounts.iter_mut() {
                            x.invert();
                        }
                        t.amounts.clear();
                        Ok(text)
                    }
                }),
            ),
            4 => (
                format!("amount of {:?}", name),
                lib(|| match j.find_account(&name) {
                    None => Ok("none".to_string()),
                    Some(a) => Ok(amounts(&a.amount().amounts)?.join(", ")),
                }),
            ),
            5 => ("all postings".into(), lib(|| Ok(format!("{:?}", j.all_posts().iter().map(|p| *p as *const Post as usize).collect::<Vec<_>>())))),
            6 => ("account tree".into(), lib(|| Ok(format!("{:?}", j.master.flatten_account_tree().iter().map(|a| a.fullname().to_string()).collect::<Vec<_>>())))),
            7 => (
                format!("commodity {:?}", sym),
                lib(|| {
                    let i = j.commodity_pool.find_index(&sym);
                    let by_index = i.map(|i| j.get_commodity(i).symbol.clone());
                    Ok(format!("{:?} {:?} {:?}", j.commodity_pool.find(&sym).map(|c| c.symbol.clone()), i, by_index))
                }),
            ),
            8 if sym != other && sym != "NOSUCH" => (
                format!("price of {:?} in {:?}", sym, other),
                lib(|| {
                    let (x, y) = (j.commodity_pool.find(&sym).ok_or("commodity")?, j.commodity_pool.find(&other).ok_or("commodity")?);
                    let t = chrono::NaiveDate::from_ymd_opt(2030, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
                    let p = crate::hook::find_price(&j.commodity_pool, x, y, t, t);
                    Ok(format!("{:?}", p.map(|(t, q, s)| (t, q.to_string(), s))))
                }),
            ),
            9 if sym != "NOSUCH" && !syms.is_empty() => (
                format!("exchange {} {} for {} {}{}", q, sym, c, other, if per_unit { " each" } else { "" }),
                lib(|| {
                    let a = lib_amount(&mut j, &Amt { q: q.clone(), sym: sym.clone() });
                    let b = lib_amount(&mut j, &Amt { q: c.clone(), sym: other.clone() });
                    let t = chrono::NaiveDate::from_ymd_opt(2022, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
                    let (bd, _) = j.commodity_pool.exchange(&a, &b, per_unit, t);
                    Ok(amounts(&[bd.amount, bd.final_cost, bd.basis_cost])?.join(", "))
                }),
            ),
            10 => (
                format!("register {:?} again", name),
                // only a known account
                lib(|| {
                    if j.find_account(&name).is_some() {
                        let p = j.register_account(&name);
                        Ok(format!("{:?}", p))
                    } else {
                        Ok("unknown".into())
                    }
                }),
            ),
            _ => (
                format!("find {:?} below", name),
                lib(|| Ok(format!("{:?}", j.master.find_or_create(&name, false)))),
            ),
        };
        ctx.text += &format!("; {}\n", question);
        // a product may be out of the range of numbers; then it always is
        let answer = match answer {
            Err(e) if kind == 8 || kind == 9 => Ok(Ok(e)),
            other => other,
        };
        let answer = answer.map_err(|e| format!("{}: {}", question, e))?.map_err(|e| format!("{}: {}", question, e))?;
        if let Some(earlier) = answers.get(&question) {
            if *earlier != answer {
                return Err(format!("{} first gave {}, later {}", question, earlier, answer));
            }
            ctx.class("asked again");
        }
        answers.insert(question, answer);
    }
    ctx.nontrivial = m.accounts.len() >= 3 && n >= 4;
    let after = state(&j, &m)?;
    if before == after {
        return super::prices::check_lots(&mut j, &m);
    }
    super::reading::diff_snap(&before.snap, &after.snap)?;
    Err(format!(
        "looking at the journal changed it: prices {}, postings of the accounts {}, commodities {} and {}, nodes {} and {}",
        if before.prices == after.prices { "the same" } else { "changed" },
        if before.posts == after.posts { "the same" } else { "changed" },
        before.commodities,
        after.commodities,
        before.nodes,
        after.nodes
    ))
}

pub const C22: Prop = Prop {
    id: "C22",
    case: c22,
    quick: 45_000,
    thorough: 800_000,
    rule: "Readings into one journal, some of them refused because of a malformed element; after each, everything read before is compared with the data. Non-trivial: a refused reading after at least one transaction was read; distinct by the readings.",
};

fn c22(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { notes: 10, bulk: s.chance(1, 40), huge: false, max_xacts: 5, prices: 15, ..Cfg::default() };
    let mut j = Journal::new();
    let mut m = Model::default();
    // where the transactions of the model stand in the journal
    let mut at: Vec<usize> = vec![];
    let mut refused_text = String::new();
    // the lots read before, and the refused elements that may have given one
    let mut lots: BTreeMap<String, (Option<Amt>, Option<Date>)> = BTreeMap::new();
    let mut refused_lots = String::new();
    let n = s.size(2, 5);
    for k in 0..n {
        let items = gen_journal(s, &cfg);
        let bad = k + 1 < n && s.chance(2, 3);
        // transactions that may come with what is refused
        let mut extra = bad as usize;
        let mut new_lots = String::new();
        let (text, good) = if bad {
            let p = Pools::gen(s, 4, 3, &cfg);
            let (bad, what) = malformed(s, &p, &ctx.scratch);
            let cut = s.below(items.len() as u64 + 1) as usize;
            let text = format!("{}\n\n{}\n{}", spell(s, &items[..cut]), bad, spell(s, &items[cut..]));
            ctx.class(what);
            if what == "file that includes itself" {
                // each of the files may have one
                extra = 3;
            }
            refused_text += &bad;
            if bad.contains(|c| "{[".contains(c)) {
                new_lots = bad.clone();
            }
            (text, items[..cut].to_vec())
        } else {
            (spell(s, &items), items)
        };
        ctx.text += &format!("--- reading{}\n{}\n", if bad { ", to be refused" } else { "" }, text);
        let from = j.xacts.len();
        let r = lib(|| read_into(&text, &mut j));
        match (bad, r) {
            (true, Ok(())) => {
                // another property's subject
                ctx.class("not refused");
                return Ok(());
            }
            (false, Err(e)) => return Err(format!("a valid journal was refused{}: {}", if refused_text.is_empty() { "" } else { " after a refused one" }, e)),
            (true, Err(_)) => {
                ctx.class("refused");
                ctx.nontrivial |= !m.xacts.is_empty() || good.iter().any(|i| matches!(i, Item::Xact(_)));
            }
            _ => (),
        }
        let known = m.xacts.len();
        for i in &good {
            m.add(i);
        }
        at.extend(from..from + m.xacts.len() - known);
        let have = j.xacts.len();
        let want = from + m.xacts.len() - known;
        if have < want || have > want + extra {
            return Err(format!("after the reading there are {} transactions, expected {}", have, want));
        }
        lib(|| kept(&j, &m, &at, &refused_text)).map_err(|e| format!("the journal could not be walked: {}", e))??;
        for (sym, lot) in &m.lots {
            if !lots.contains_key(sym) && !refused_lots.contains(sym.as_str()) {
                lots.insert(sym.clone(), lot.clone());
            }
        }
        refused_lots += &new_lots;
        for (sym, want) in &lots {
            super::prices::check_lot(&mut j, &m, sym, Some(want))?;
        }
        let lines = lib(|| ledger_rs_lib::report::balance_report(&j)).map_err(|e| format!("the balance report failed: {}", e))?;
        let accounts = account_map(&j);
        if lines.len() != accounts.len() {
            return Err(format!("the report has {} lines for {} accounts", lines.len(), accounts.len()));
        }
    }
    Ok(())
}

/// Everything in the model is in the journal, at the given places, and linked.
fn kept(j: &Journal, m: &Model, at: &[usize], refused: &str) -> R {
    let all = snap(j, None)?;
    let chosen = Snap { xacts: at.iter().map(|i| all.xacts[*i].clone()).collect(), accounts: all.accounts.clone() };
    compare(m, &chosen, EVERYTHING)?;
    for i in at {
        let x = &j.xacts[*i];
        for p in &x.posts {
            if p.xact_ptr as usize != x as *const Xact as usize {
                return Err(format!("transaction {}: a posting does not lead back to it", i));
            }
            // SAFETY: snap found the account in the tree
            let a = unsafe { &*p.account };
            if a.posts.iter().filter(|q| **q as usize == &**p as *const Post as usize).count() != 1 {
                return Err(format!("transaction {}: its account does not list a posting once", i));
            }
        }
    }
    // no account lists a posting that is gone, or one twice
    let live: std::collections::BTreeSet<usize> = j.xacts.iter().flat_map(|x| x.posts.iter()).map(|p| &**p as *const Post as usize).collect();
    for a in j.master.flatten_account_tree() {
        let mut seen = std::collections::BTreeSet::new();
        for p in &a.posts {
            if !live.contains(&(*p as usize)) || !seen.insert(*p as usize) {
                return Err(format!("account {:?} lists a posting that is gone, or one twice", a.fullname()));
            }
        }
    }
    for a in &m.accounts {
        if !all.accounts.contains(a) || j.find_account(&a.join(":")).is_none() {
            return Err(format!("account {:?} is missing", a.join(":")));
        }
    }
    for sym in &m.syms {
        if j.commodity_pool.find(sym).map(|c| c.symbol.as_str()) != Some(sym.as_str()) {
            return Err(format!("commodity {:?} is missing", sym));
        }
    }
    let got = prices(j)?;
    if !crate::hook::AVAILABLE {
        return Ok(());
    }
    for (key, want) in &m.prices {
        // a refused transaction may have established a price before it was refused
        if refused.contains(&date_str(&key.2 .0)) {
            continue;
        }
        match got.get(key) {
            Some(have) if have.len() == 1 && have[0].is_quotient(&want.num, &want.den) => (),
            have => return Err(format!("the price of {} in {} at {:?} is {:?}, expected {} / {}", key.0, key.1, key.2, have, want.num, want.den)),
        }
    }
    Ok(())
}

pub const C23: Prop = Prop {
    id: "C23",
    case: c23,
    quick: 120_000,
    thorough: 1_000_000,
    rule: "Generated transactions, some added through the programming interface and some read, in one journal; compared with the data field by field, with the prices. Non-trivial: at least one transaction with two or more postings added through the interface; distinct by text.",
};

fn build(j: &mut Journal, x: &XactA) {
    let date = chrono::NaiveDate::from_ymd_opt(x.date.0, x.date.1, x.date.2);
    let mut xact = Xact::new(date, x.payee.as_deref().unwrap_or("Unknown Payee"), x.note.clone());
    xact.aux_date = x.aux.and_then(|d| chrono::NaiveDate::from_ymd_opt(d.0, d.1, d.2));
    for c in &x.comments {
        xact.add_note(c);
    }
    for p in &x.posts {
        let acct = j.register_account(&p.account).expect("account");
        let amount = p.amount.as_ref().map(|a| lib_amount(j, a));
        let cost = p.cost.as_ref().map(|_| lib_amount(j, &contribution(p).unwrap()));
        let mut post = Post::new(acct, std::ptr::null(), amount, cost, None);
        for c in &p.comments {
            post.add_note(c);
        }
        xact.add_post(post);
    }
    let ptr = j.add_xact(xact) as *const Xact;
    ledger_rs_lib::xact::finalize(ptr, j);
}

fn c23(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { notes: 15, lots: 0, prices: 20, costs: 40, zero_total_cost: false, ..Cfg::default() };
    let items = gen_journal(s, &cfg);
    let m = Model::of(&items);
    let mut j = Journal::new();
    let all = s.chance(1, 2);
    for i in &items {
        let by_text = !all && s.chance(1, 2);
        let text = if by_text { spell(s, &[i.clone()]) } else { render::plain(s, &[i.clone()]) };
        ctx.text += &format!("--- {}\n{}", if by_text { "read" } else { "through the interface" }, text);
        let r = match i {
            _ if by_text => lib(|| read_into(&text, &mut j)),
            Item::Xact(x) => {
                ctx.nontrivial |= x.posts.len() >= 2;
                lib(|| build(&mut j, x))
            }
            Item::Price(p) => lib(|| {
                let src = j.commodity_pool.find_or_create(&p.sym, None);
                let price = lib_amount(&mut j, &p.price);
                let t = p.time.unwrap_or((0, 0, 0));
                let when = chrono::NaiveDate::from_ymd_opt(p.date.0, p.date.1, p.date.2).unwrap().and_hms_opt(t.0, t.1, t.2).unwrap();
                j.commodity_pool.add_price(src, when, price);
            }),
        };
        r.map_err(|e| format!("a valid element was refused: {}", e))?;
    }
    let text = ctx.text.clone();
    classify(ctx, &items, &text);
    let sn = snapshot(&j, &m)?;
    compare(&m, &sn, EVERYTHING)?;
    let mut accounts: Vec<Vec<String>> = m.accounts.iter().cloned().collect();
    accounts.insert(0, vec![]);
    if sn.accounts.into_iter().collect::<Vec<_>>() != accounts {
        return Err("the accounts are not the named ones".into());
    }
    for x in &j.xacts {
        if x.posts.iter().any(|p| p.xact_ptr as usize != x as *const Xact as usize) {
            return Err("a posting does not lead back to its transaction".into());
        }
    }
    let got = lib(|| prices(&j))??;
    super::prices::check_prices(&m, &got)
}
