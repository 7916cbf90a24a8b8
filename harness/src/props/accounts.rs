use super::*;
use ledger_rs_lib::account::Account;
use ledger_rs_lib::commodity::Commodity;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const C07: Prop = Prop {
    id: "C07",
    case: c07,
    quick: 100_000,
    thorough: 700_000,
    rule: "A sequence of registrations, lookups and readings against one journal, its account tree compared with the set of names after each step. Non-trivial: at least 3 accounts and one lookup of a missing name; distinct by the sequence.",
};

fn variants(s: &mut Src, names: &BTreeSet<Vec<String>>, pool: &[String]) -> String {
    let existing: Vec<String> = names.iter().map(|p| p.join(":")).collect();
    let base = if !existing.is_empty() && s.chance(4, 5) { s.pick(&existing).clone() } else { s.pick(pool).clone() };
    match s.below(9) {
        0 => base,
        7 => format!("{}{}", base, s.pick(&["\u{a0}", "\t", " ", "\u{3000}", "\u{200b}", ".", "\u{301}", "\0", "/", "\u{feff}"])),
        1 => format!("{}:{}", base, gen_segment(s)),
        2 => base.split(':').last().unwrap().to_string(),
        3 => base.to_lowercase(),
        4 => {
            let mut b: Vec<char> = base.chars().collect();
            b.pop();
            let b: String = b.into_iter().collect();
            let b = b.trim_end_matches(|c| c == ':' || c == ' ').to_string();
            if b.is_empty() || b.contains("::") {
                base
            } else {
                b
            }
        }
        5 => format!("{}x", base),
        6 => match base.split_once(':') {
            Some((_, rest)) => rest.to_string(),
            None => base,
        },
        _ => format!("{}:{}", gen_segment(s), base),
    }
}

fn check_tree(j: &Journal, want: &BTreeSet<Vec<String>>) -> R {
    // the tree itself
    let map = account_map(j);
    let got: BTreeSet<Vec<String>> = map.values().filter(|p| !p.is_empty()).cloned().collect();
    if got != *want {
        let extra: Vec<_> = got.difference(want).take(3).collect();
        let missing: Vec<_> = want.difference(&got).take(3).collect();
        return Err(format!("the account tree has {:?} too many and lacks {:?}", extra, missing));
    }
    if map.len() != want.len() + 1 {
        return Err("two accounts have the same path".into());
    }
    // flattened: each account once, parents first, siblings by name
    let flat = j.master.flatten_account_tree();
    let paths: Vec<Option<&Vec<String>>> = flat.iter().map(|a| map.get(&(*a as *const Account as usize))).collect();
    let mut expected: Vec<Vec<String>> = vec![vec![]];
    expected.extend(want.iter().cloned());
    if paths.len() != expected.len() || paths.iter().zip(&expected).any(|(a, b)| *a != Some(b)) {
        return Err(format!("the flattened tree is {:?}, expected {:?}", paths, expected));
    }
    // names
    for (a, p) in flat.iter().zip(&expected) {
        let name = p.last().cloned().unwrap_or_default();
        if a.name != name {
            return Err(format!("account {:?} has the name {:?}", p, a.name));
        }
        if a.fullname() != p.join(":") {
            return Err(format!("account {:?} has the full name {:?}", p, a.fullname()));
        }
    }
    // found by the full name, from the journal and from each ancestor
    for (a, p) in flat.iter().zip(&expected) {
        if p.is_empty() {
            continue;
        }
        let found = j.find_account(&p.join(":")).ok_or_else(|| format!("account {:?} was not found", p.join(":")))?;
        if found as *const Account != *a as *const Account {
            return Err(format!("looking up {:?} finds {:?}", p.join(":"), found.fullname()));
        }
    }
    let report = ledger_rs_lib::report::report_accounts(j);
    let mut sorted = report.clone();
    sorted.sort();
    let mut names: Vec<String> = expected.iter().map(|p| p.last().cloned().unwrap_or_default()).collect();
    names.sort();
    if sorted != names {
        return Err(format!("the accounts report lists {:?}, expected {:?}", sorted, names));
    }
    Ok(())
}

fn c07(s: &mut Src, ctx: &mut Ctx) -> R {
    let bulk = s.chance(1, 150);
    let (n_names, n_ops) = if bulk { (s.size(60, 250), s.size(40, 80)) } else { (s.size(1, 10), s.size(1, 14)) };
    ctx.class_if(bulk, "bulk");
    let pool = gen_accounts(s, n_names);
    let cfg = Cfg { notes: 5, bulk: false, huge: false, ..Cfg::default() };
    let mut pools = Pools::gen(s, 1, 3, &cfg);
    pools.accounts = pool.clone();
    let mut j = Journal::new();
    let mut want: BTreeSet<Vec<String>> = BTreeSet::new();
    let mut missing = 0;
    if s.chance(1, 900) {
        // very many siblings
        let parent = if s.chance(1, 2) { format!("{}:", s.pick(&pool)) } else { String::new() };
        let count = s.size(1, 1500);
        ctx.text += &format!("register {}w0 ... {}w{}\n", parent, parent, count - 1);
        ctx.class("very many siblings");
        let mut m = Model::default();
        for k in 0..count {
            let name = format!("{}w{}", parent, k);
            lib(|| j.register_account(&name))?.ok_or("registration returned nothing")?;
            m.account(&name);
        }
        want.extend(m.accounts);
    }
    for step in 0..n_ops {
        match s.weighted(&[4, 4, 3, 1, 1]) {
            0 => {
                let count = if bulk { s.size(1, 20) } else { 1 };
                for _ in 0..count {
                    let name = if s.chance(1, 4) { variants(s, &want, &pool) } else { s.pick(&pool).clone() };
                    ctx.text += &format!("register {:?}\n", name);
                    let known = want.contains(&path(&name));
                    let before = lib(|| j.find_account(&name).map(|a| a as *const Account))?;
                    if before.is_some() != known {
                        return Err(format!("before it is registered, {:?} is {}", name, if known { "missing" } else { "found" }));
                    }
                    let p = lib(|| j.register_account(&name))?.ok_or("registration returned nothing")?;
                    let mut m = Model::default();
                    m.account(&name);
                    want.extend(m.accounts);
                    let again = lib(|| j.register_account(&name))?;
                    if again != Some(p) || before.map_or(false, |b| b != p) {
                        return Err(format!("registering {:?} again gives another account", name));
                    }
                }
            }
            1 => {
                let name = variants(s, &want, &pool);
                let exists = want.contains(&path(&name));
                ctx.text += &format!("find {:?}\n", name);
                let got = lib(|| j.find_account(&name).map(|a| a.fullname().to_string()))
                    .map_err(|e| format!("the lookup of {:?} failed: {}", name, e))?;
                match (exists, got) {
                    (true, Some(f)) if f == name => (),
                    (false, None) => missing += 1,
                    (_, got) => return Err(format!("looking up {:?} gives {:?}, exists: {}", name, got, exists)),
                }
            }
            2 => {
                let x = gen_xact(s, &pools, &cfg);
                let items = [Item::Xact(x)];
                let text = spell(s, &items);
                ctx.text += &format!("read\n{}\n", text);
                lib(|| read_into(&text, &mut j)).map_err(|e| format!("a valid journal was refused: {}", e))?;
                want.extend(Model::of(&items).accounts);
            }
            3 => {
                // relative to an account, without creating
                if let Some(base) = want.iter().nth(s.below(want.len().max(1) as u64) as usize).cloned() {
                    let rel = if s.chance(1, 2) {
                        gen_segment(s)
                    } else {
                        let deeper: Vec<&Vec<String>> = want.iter().filter(|p| p.len() > base.len() && p.starts_with(&base)).collect();
                        if deeper.is_empty() {
                            gen_segment(s)
                        } else {
                            s.pick(&deeper)[base.len()..].join(":")
                        }
                    };
                    ctx.text += &format!("find {:?} under {:?}\n", rel, base.join(":"));
                    let mut full = base.clone();
                    full.extend(path(&rel));
                    let exists = want.contains(&full);
                    let got = lib(|| {
                        let a = j.find_account(&base.join(":")).expect("account");
                        let p = a.find_or_create(&rel, false);
                        let q = a.find_account(&rel).map(|x| x as *const Account);
                        assert_eq!(p, q);
                        p.map(|p| j.get_account(p).fullname().to_string())
                    })
                    .map_err(|e| format!("the lookup failed: {}", e))?;
                    if got != if exists { Some(full.join(":")) } else { None } {
                        return Err(format!("looking up {:?} under {:?} gives {:?}", rel, base.join(":"), got));
                    }
                }
            }
            _ => {
                // creating below an account
                if let Some(base) = want.iter().nth(s.below(want.len().max(1) as u64) as usize).cloned() {
                    let rel = s.pick(&pool).clone();
                    ctx.text += &format!("create {:?} under {:?}\n", rel, base.join(":"));
                    let mut full = base.clone();
                    full.extend(path(&rel));
                    let got = lib(|| {
                        let a = j.find_account(&base.join(":")).expect("account");
                        let p = a.find_or_create(&rel, true).expect("created");
                        j.get_account(p).fullname().to_string()
                    })?;
                    if got != full.join(":") {
                        return Err(format!("creating {:?} under {:?} gives {:?}", rel, base.join(":"), got));
                    }
                    let mut m = Model::default();
                    m.account(&full.join(":"));
                    want.extend(m.accounts);
                }
            }
        }
        if !bulk || step % 8 == 7 || step + 1 == n_ops {
            lib(|| check_tree(&j, &want)).map_err(|e| format!("the account tree could not be walked: {}", e))??;
        }
    }
    ctx.class_if(missing > 0, "missing name looked up");
    ctx.class_if(want.len() > 100, "more than 100 accounts");
    ctx.class_if(want.iter().any(|p| p.len() > 8), "deep");
    ctx.nontrivial = want.len() >= 3 && missing > 0;
    Ok(())
}

pub const C08: Prop = Prop {
    id: "C08",
    case: c08,
    quick: 40_000,
    thorough: 400_000,
    rule: "A journal that grows step by step (readings, registered accounts, commodities, prices, transactions added through the API, the journal itself moved), every link checked after each step, on an allocator that overwrites and withholds freed memory. Non-trivial: 2 or more steps and 4 or more postings; distinct by the sequence.",
};

struct Remembered {
    accounts: HashMap<String, usize>,
    commodities: HashMap<String, usize>,
}

/// `api`: the transactions that were added through the API, whose postings need not be listed by the accounts.
pub fn check_links(j: &Journal, syms: &BTreeSet<String>, api: &BTreeSet<usize>) -> R {
    let accounts = account_map(j);
    let comms = commodity_map(j, syms.iter());
    let mut by_account: BTreeMap<usize, Vec<(usize, bool)>> = BTreeMap::new();
    for (i, x) in j.xacts.iter().enumerate() {
        for (k, p) in x.posts.iter().enumerate() {
            let at = format!("transaction {}, posting {}", i, k);
            if !accounts.contains_key(&(p.account as usize)) {
                return Err(format!("{}: its account is not in the account tree", at));
            }
            if p.xact_ptr as usize != x as *const Xact as usize {
                return Err(format!("{}: does not lead back to its transaction", at));
            }
            for a in [&p.amount, &p.cost].into_iter().flatten() {
                if let Some(c) = a.get_commodity() {
                    let addr = c as *const Commodity as usize;
                    match comms.get(&addr) {
                        None => return Err(format!("{}: its commodity is not in the pool", at)),
                        Some(sym) if *sym != c.symbol => return Err(format!("{}: commodity {:?} is stored as {:?}", at, c.symbol, sym)),
                        _ => (),
                    }
                }
            }
            by_account.entry(p.account as usize).or_default().push((&**p as *const Post as usize, api.contains(&i)));
        }
    }
    for a in j.master.flatten_account_tree() {
        let addr = a as *const Account as usize;
        let Some(path) = accounts.get(&addr) else {
            return Err("the flattened tree lists an account that is not in the tree".into());
        };
        if a.fullname() != path.join(":") {
            return Err(format!("account {:?} calls itself {:?}: its parent link is wrong", path.join(":"), a.fullname()));
        }
        let have: Vec<usize> = a.posts.iter().map(|p| *p as usize).collect();
        let mut want = by_account.remove(&addr).unwrap_or_default();
        want.retain(|(p, api)| !api || have.contains(p));
        let want: Vec<usize> = want.into_iter().map(|w| w.0).collect();
        if have != want {
            return Err(format!("account {:?} lists {} postings, {} refer to it", path.join(":"), have.len(), want.len()));
        }
    }
    for (addr, sym) in &comms {
        let index = j.commodity_pool.find_index(sym).ok_or_else(|| format!("commodity {:?} has no index", sym))?;
        if j.commodity_pool.get_by_index(index) as *const Commodity as usize != *addr {
            return Err(format!("the index of {:?} leads to another commodity", sym));
        }
        if j.get_commodity(index) as *const Commodity as usize != *addr {
            return Err(format!("the index of {:?} leads to another commodity", sym));
        }
    }
    if comms.len() != syms.len() {
        return Err(format!("{} of {} commodities are in the pool", comms.len(), syms.len()));
    }
    for (src, dst, _, _) in crate::hook::price_points(&j.commodity_pool) {
        if !syms.contains(&src) || !syms.contains(&dst) {
            return Err(format!("a price of {:?} in {:?}: not the journal's commodities", src, dst));
        }
    }
    Ok(())
}

fn c08(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { notes: 4, kinds: [2, 30, 35, 14, 14, 5], ..Cfg::default() };
    let bulk = s.chance(1, 40);
    let (na, ns, steps) = if bulk { (s.size(20, 250), s.size(3, 250), s.size(8, 40)) } else { (s.size(1, 10), s.size(2, 9), s.size(1, 10)) };
    ctx.class_if(bulk, "bulk");
    let mut pools = Pools::gen(s, na, ns, &cfg);
    let mut j = Box::new(Journal::new());
    let mut m = Model::default();
    let mut r = Remembered { accounts: HashMap::new(), commodities: HashMap::new() };
    let mut api: BTreeSet<usize> = BTreeSet::new();
    let mut did = 0;
    let vast = s.chance(1, 350);
    ctx.class_if(vast, "thousands of transactions");
    let wide = s.chance(1, 500);
    ctx.class_if(wide, "very many siblings or commodities");
    for step in 0..steps {
        if wide && step % 3 == 1 {
            let parent = if s.chance(1, 2) { format!("{}:", s.pick(&pools.accounts)) } else { String::new() };
            let count = s.size(1, 1500);
            if s.chance(1, 2) {
                ctx.text += &format!("register {}w0 ... {}w{}\n", parent, parent, count);
                for k in 0..count {
                    let name = format!("{}w{}", parent, k);
                    lib(|| j.register_account(&name))?.ok_or("registration returned nothing")?;
                    m.account(&name);
                }
            } else {
                ctx.text += &format!("commodities w{{a}} ... {}\n", count);
                for k in 0..count {
                    // no digits in symbols
                    let sym: String = format!("w{}", k).chars().map(|c| c.to_digit(10).map_or(c, |d| (b'a' + d as u8) as char)).collect();
                    lib(|| j.commodity_pool.find_or_create(&sym, None))?;
                    m.syms.insert(sym);
                }
            }
            did += 1;
        }
        if vast && step < 2 {
            // many short transactions, over which the collections grow often
            let items: Vec<Item> = (0..3).map(|_| Item::Xact(gen_xact(s, &pools, &cfg))).collect();
            let text = render::plain(s, &items);
            let times = s.size(1, if step == 0 { 2500 } else { 600 });
            ctx.text += &format!("read {} times\n{}\n", times, text);
            lib(|| read_into(&text.repeat(times), &mut j)).map_err(|e| format!("a valid journal was refused: {}", e))?;
            for _ in 0..times {
                for i in &items {
                    m.add(i);
                }
            }
            did += 1;
        }
        match s.weighted(&[8, 2, 2, 2, 1, 1]) {
            0 => {
                let n = if bulk { s.size(1, 12) } else { s.size(1, 3) };
                pools.max_posts = if s.chance(1, 10) { s.size(6, 40) } else { 5 };
                let items: Vec<Item> = (0..n)
                    .map(|_| if s.chance(1, 6) { Item::Price(gen_price(s, &pools)) } else { Item::Xact(gen_xact(s, &pools, &cfg)) })
                    .collect();
                let text = spell(s, &items);
                ctx.text += &format!("read\n{}\n", text);
                lib(|| read_into(&text, &mut j)).map_err(|e| format!("a valid journal was refused: {}", e))?;
                for i in &items {
                    m.add(i);
                }
                did += 1;
            }
            1 => {
                let n = if bulk { s.size(1, 60) } else { 1 };
                for _ in 0..n {
                    let name = s.pick(&pools.accounts).clone();
                    ctx.text += &format!("register {:?}\n", name);
                    let p = lib(|| j.register_account(&name))?.ok_or("registration returned nothing")? as usize;
                    m.account(&name);
                    if *r.accounts.entry(name.clone()).or_insert(p) != p {
                        return Err(format!("account {:?} moved", name));
                    }
                }
                did += 1;
            }
            2 => {
                let n = if bulk { s.size(1, 60) } else { 1 };
                for _ in 0..n {
                    let sym = s.pick(&pools.syms).clone();
                    ctx.text += &format!("commodity {:?}\n", sym);
                    let p = lib(|| j.commodity_pool.find_or_create(&sym, None))? as usize;
                    m.syms.insert(sym.clone());
                    if *r.commodities.entry(sym.clone()).or_insert(p) != p {
                        return Err(format!("commodity {:?} moved", sym));
                    }
                }
                did += 1;
            }
            3 => {
                let x = gen_xact(s, &pools, &cfg);
                let x = XactA { posts: x.posts.into_iter().map(|p| PostA { lot_price: None, lot_date: None, ..p }).collect(), ..x };
                ctx.text += &format!("add through the API\n{}", render::plain(s, &[Item::Xact(x.clone())]));
                lib(|| add_by_api(&mut j, &x)).map_err(|e| format!("a valid transaction was refused: {}", e))?;
                m.add(&Item::Xact(x));
                api.insert(j.xacts.len() - 1);
                did += 1;
            }
            4 => {
                ctx.text += "move the journal\n";
                j = Box::new(*j);
            }
            _ => {
                let p = gen_price(s, &pools);
                let line = Render::new(s, Style::Plain).price(&p);
                ctx.text += &format!("price {}", line);
                lib(|| j.commodity_pool.parse_price_directive(line.trim_end()))?;
                m.price(&p);
                did += 1;
            }
        }
        lib(|| -> R {
            check_links(&j, &m.syms, &api)?;
            for (name, addr) in &r.accounts {
                if j.find_account(name).map(|a| a as *const Account as usize) != Some(*addr) {
                    return Err(format!("a pointer to account {:?} obtained earlier is no longer that account", name));
                }
            }
            for (sym, addr) in &r.commodities {
                if j.commodity_pool.find(sym).map(|c| c as *const Commodity as usize) != Some(*addr) {
                    return Err(format!("a pointer to commodity {:?} obtained earlier is no longer that commodity", sym));
                }
            }
            Ok(())
        })
        .map_err(|e| format!("the links could not be followed: {}", e))??;
        // remember what is there now
        lib(|| {
            for path in &m.accounts {
                let name = path.join(":");
                if !r.accounts.contains_key(&name) {
                    if let Some(a) = j.find_account(&name) {
                        r.accounts.insert(name, a as *const Account as usize);
                    }
                }
            }
            for sym in &m.syms {
                if let Some(c) = j.commodity_pool.find(sym) {
                    r.commodities.entry(sym.clone()).or_insert(c as *const Commodity as usize);
                }
            }
        })?;
    }
    let posts: usize = m.xacts.iter().map(|x| x.posts.len()).sum();
    ctx.class_if(posts > 100, "more than 100 postings");
    ctx.class_if(m.accounts.len() > 100, "more than 100 accounts");
    ctx.class_if(m.syms.len() > 100, "more than 100 commodities");
    ctx.class_if(!api.is_empty(), "API");
    ctx.nontrivial = did >= 2 && posts >= 4;
    Ok(())
}

pub const C09: Prop = Prop {
    id: "C09",
    case: c09,
    quick: 180_000,
    thorough: 900_000,
    rule: "A sequence of pool operations and readings, compared with a set of symbols after each step. Non-trivial: at least 3 symbols and one repeated use of a symbol; distinct by the sequence.",
};
/// Through the interface a symbol can be any string.
fn odd_symbol(s: &mut Src, sym: String) -> String {
    match s.below(12) {
        0 => format!("{} ", sym),
        1 => format!(" {}", sym),
        2 => format!("\"{}\"", sym),
        3 => sym.to_lowercase(),
        4 => sym.to_uppercase(),
        5 => format!("{}\u{301}", sym),
        6 => format!("{}\0", sym),
        7 => " ".into(),
        8 => "\u{a0}".into(),
        9 => format!("{}{}", sym, sym),
        10 => "-5".into(),
        _ => sym.repeat(40),
    }
}

fn c09(s: &mut Src, ctx: &mut Ctx) -> R {
    let bulk = s.chance(1, 100);
    let cfg = Cfg { notes: 0, bulk: false, huge: false, lots: 30, ..Cfg::default() };
    let (ns, steps) = if bulk { (s.size(30, 400), s.size(20, 50)) } else { (s.size(2, 10), s.size(2, 16)) };
    let pools = Pools::gen(s, 3, ns, &cfg);
    let mut j = Journal::new();
    let mut known: BTreeMap<String, (usize, usize)> = BTreeMap::new(); // symbol -> address, index
    let mut repeated = false;
    for step in 0..steps {
        let mut fresh: BTreeSet<String> = BTreeSet::new();
        match s.weighted(&[5, 2, 3, 2, 1]) {
            0 => {
                let n = if bulk { s.size(1, 40) } else { 1 };
                for _ in 0..n {
                    let mut sym = s.pick(&pools.syms).clone();
                    if s.chance(1, 6) {
                        // through the interface a symbol can be any string
                        sym = odd_symbol(s, sym);
                    }
                    ctx.text += &format!("find_or_create {:?}\n", sym);
                    repeated |= known.contains_key(&sym);
                    let p = lib(|| j.commodity_pool.find_or_create(&sym, None))?;
                    let f = lib(|| j.commodity_pool.find(&sym).map(|c| c as *const Commodity))?;
                    if f != Some(p) {
                        return Err(format!("{:?} is not found where it was created", sym));
                    }
                    fresh.insert(sym);
                }
            }
            1 => {
                let sym = s.pick(&pools.syms).clone();
                if !known.contains_key(&sym) {
                    ctx.text += &format!("create {:?}\n", sym);
                    lib(|| j.commodity_pool.create(&sym, None))?;
                    fresh.insert(sym);
                }
            }
            2 => {
                let items = vec![Item::Xact(gen_xact(s, &pools, &cfg))];
                let text = spell(s, &items);
                ctx.text += &format!("read\n{}\n", text);
                lib(|| read_into(&text, &mut j)).map_err(|e| format!("a valid journal was refused: {}", e))?;
                fresh.extend(Model::of(&items).syms);
            }
            3 => {
                let p = gen_price(s, &pools);
                let text = spell(s, &[Item::Price(p.clone())]);
                ctx.text += &format!("read\n{}\n", text);
                lib(|| read_into(&text, &mut j)).map_err(|e| format!("a valid journal was refused: {}", e))?;
                fresh.insert(p.sym.clone());
                fresh.insert(p.price.sym.clone());
            }
            _ => {
                ctx.text += "find_or_create \"\"\n";
                if !lib(|| j.commodity_pool.find_or_create("", None))?.is_null() {
                    return Err("the empty symbol became a commodity".into());
                }
            }
        }
        for sym in fresh {
            if known.contains_key(&sym) {
                repeated = true;
                continue;
            }
            let a = lib(|| j.commodity_pool.find(&sym).map(|c| c as *const Commodity as usize))?
                .ok_or_else(|| format!("commodity {:?} is missing", sym))?;
            let i = lib(|| j.commodity_pool.find_index(&sym))?.ok_or_else(|| format!("commodity {:?} has no index", sym))?;
            known.insert(sym, (a, i.index()));
        }
        if bulk && step % 6 != 5 && step + 1 != steps {
            continue;
        }
        // the whole pool
        let check = lib(|| -> R {
            let pool = &j.commodity_pool;
            if pool.len() != known.len() {
                return Err(format!("the pool counts {} commodities, {} symbols were used", pool.len(), known.len()));
            }
            if crate::hook::price_nodes(pool) != known.len() {
                return Err("the price graph has another number of commodities than the pool".into());
            }
            let mut addrs = BTreeSet::new();
            let mut idx = BTreeSet::new();
            for (sym, (a, i)) in &known {
                let c = pool.find(sym).ok_or_else(|| format!("commodity {:?} is missing", sym))?;
                if c as *const Commodity as usize != *a {
                    return Err(format!("commodity {:?} is another one than before", sym));
                }
                if c.symbol != *sym {
                    return Err(format!("commodity {:?} carries the symbol {:?}", sym, c.symbol));
                }
                let index = pool.find_index(sym).ok_or_else(|| format!("commodity {:?} has no index", sym))?;
                if index.index() != *i || c.graph_index != Some(index) {
                    return Err(format!("the index of {:?} changed", sym));
                }
                if pool.get_by_index(index) as *const Commodity as usize != *a {
                    return Err(format!("the index of {:?} leads to another commodity", sym));
                }
                addrs.insert(*a);
                idx.insert(*i);
            }
            if addrs.len() != known.len() || idx.len() != known.len() {
                return Err("two symbols share a commodity".into());
            }
            Ok(())
        });
        check.map_err(|e| format!("the pool could not be walked: {}", e))??;
        // symbols that were not used
        let used = s.pick(&pools.syms).clone();
        for sym in [s.pick(&pools.syms).clone(), "NOSUCH".to_string(), "".to_string(), odd_symbol(s, used)] {
            if !known.contains_key(&sym) {
                let (f, i) = lib(|| (j.commodity_pool.find(&sym).is_some(), j.commodity_pool.find_index(&sym).is_some()))
                    .map_err(|e| format!("the lookup of {:?} failed: {}", sym, e))?;
                if f || i {
                    return Err(format!("the unused symbol {:?} is found", sym));
                }
            }
        }
    }
    ctx.class_if(known.len() > 100, "more than 100 commodities");
    ctx.class_if(repeated, "repeated symbol");
    ctx.nontrivial = known.len() >= 3 && repeated;
    Ok(())
}
