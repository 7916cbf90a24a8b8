use super::*;
use ledger_rs_lib::commodity::Commodity;
use std::collections::BTreeMap;

pub const C15: Prop = Prop {
    id: "C15",
    case: c15,
    quick: 90_000,
    thorough: 1_500_000,
    rule: "A valid generated journal with one malformed element put into it. Non-trivial: the journal is accepted without that element; distinct by text.",
};

pub const BAD_NUMBERS: &[&str] = &[
    "1,000", "1.2.3", "5,", "5.,", "1,,", "1.,0", "0-", "1,0,0", "--5", "5-", "1-2", "-", ".", ",", "1,5", "-.", "1..2", ",5", "1.000,00", "5--", "-1-", "1,000.00",
    "0.12345678901234567890123456789", "0.00000000000000000000000000001", "123456789012345678901234567890", "1.00000000000000000000000000001", "-99999999999999999999999999999999",
];

pub fn bad_date(s: &mut Src) -> String {
    let (y, m, d) = gen_date(s);
    match s.below(12) {
        0 => format!("{:04}-13-{:02}", y, d),
        1 => format!("{:04}-00-{:02}", y, d),
        2 => format!("{:04}-{:02}-32", y, m),
        3 => format!("{:04}-{:02}-00", y, m),
        4 => format!("{:04}-02-30", y),
        5 => {
            let y = if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { y + 1 } else { y };
            format!("{:04}-02-29", if y > 9999 { 2023 } else { y })
        }
        6 => format!("{:04}-{}-31", y, s.pick(&["04", "06", "09", "11"])),
        7 => format!("{:04}/{:02}/{:02}", y, m, d),
        8 => format!("{:04}-{:02}", y, m),
        9 => format!("{:04}-{:02}-{:02}x", y, m, d),
        10 => format!("{:04}-{}-{:02}", y, s.pick(&["O5", "May", "", "5.", "+"]), d),
        _ => format!("{:04}.{:02}.{:02}", y, m, d),
    }
}

pub fn bad_number(s: &mut Src, sym: &str) -> String {
    let n = *s.pick(BAD_NUMBERS);
    if sym.is_empty() {
        return n.to_string();
    }
    let first = n.chars().next().unwrap();
    if s.chance(1, 3) && (first.is_ascii_digit() || first == '-') {
        format!("{} {}", sym, n)
    } else if s.chance(1, 2) {
        format!("{} {}", n, sym)
    } else {
        format!("{}{}", n, sym)
    }
}

/// A piece of journal text that must be refused, and its description.
pub fn malformed(s: &mut Src, p: &Pools, dir: &std::path::Path) -> (String, &'static str) {
    let acct: Vec<String> = (0..4).map(|_| s.pick(&p.accounts).clone()).collect();
    let c = s.pick(&p.syms).clone();
    let d = p.syms.iter().find(|x| **x != c).cloned().unwrap_or("QQQ".into());
    let e = if c == "EEE" || d == "EEE" { "FFF" } else { "EEE" };
    let date = date_str(&gen_date(s));
    let q = gen_price_q(s).to_string();
    let q2 = gen_price_q(s).to_string();
    let neg = if s.chance(1, 2) { "-" } else { "" };
    let head = format!("{} Payee", date);
    let at = if s.chance(1, 2) { "@" } else { "@@" };
    let x = |head: &str, posts: &[String]| {
        let mut out = format!("{}\n", head);
        for p in posts {
            out += &format!("    {}\n", p);
        }
        out + "\n"
    };
    // a posting line in a transaction with a second, blank or explicit, one
    let with = |s: &mut Src, line: String, other: &str| {
        let second = if s.chance(1, 2) { acct[1].clone() } else { format!("{}  {}", acct[1], other) };
        let mut posts = vec![format!("{}  {}", acct[0], line), second];
        if s.chance(1, 3) {
            posts.swap(0, 1);
        }
        x(&head, &posts)
    };
    let other = format!("{} {}", q, c);
    match s.below(26) {
        0 => (format!("{} Payee\n    {}  {} {}\n    {}\n\n", bad_date(s), acct[0], q, c, acct[1]), "bad date"),
        1 => (format!("{}={} Payee\n    {}  {} {}\n    {}\n\n", date, bad_date(s), acct[0], q, c, acct[1]), "bad auxiliary date"),
        2 => {
            let sym = if s.chance(1, 4) { "" } else { &c };
            let t = bad_number(s, sym);
            (with(s, t, &other), "unreadable quantity")
        }
        3 => {
            let b = bad_number(s, &d);
            (with(s, format!("{}{} {} {} {}", neg, q, c, at, b), &format!("{} {}", q2, d)), "unreadable cost")
        }
        4 => {
            let b = bad_number(s, &d);
            (with(s, format!("{}{} {} {{{}}}", neg, q, c, b), &other), "unreadable lot price")
        }
        5 => {
            let mut posts: Vec<String> = vec![acct[0].clone(), acct[1].clone()];
            for k in 0..s.size(0, 3) {
                posts.push(format!("{}  {} {}", acct[k % 4], q, c));
            }
            if s.chance(1, 4) {
                posts.push(acct[2].clone());
            }
            s.shuffle(&mut posts);
            (x(&head, &posts), "two blank postings")
        }
        6 => {
            // whatever the amount
            let q = if s.chance(1, 6) { "0".to_string() } else { q.clone() };
            let q2 = if s.chance(1, 12) { "0".to_string() } else { q2.clone() };
            (with(s, format!("{}{} {} {} {} {}", neg, q, c, at, q2, c), &other), "cost in the same commodity")
        }
        7 => {
            let l = match s.below(6) {
                3 => format!("{{{} {}}} [{}] [{}]", q, d, date, date),
                4 => format!("[{}] {{{} {}}} [{}]", date, q, d, date),
                5 => format!("[{}] {{{} {}}} {{{} {}}}", date, q, d, q2, d),
                0 => format!("{{{} {}}} {{{} {}}}", q, d, q2, d),
                1 => format!("[{}] [{}]", date, date),
                _ => format!("{{{} {}}} [{}] {{{} {}}}", q, d, date, q2, d),
            };
            (with(s, format!("{}{} {} {}", neg, q, c, l), &other), "lot given twice")
        }
        8 if s.chance(1, 3) => {
            let l = match s.below(19) {
                13 => format!("{{{} {} {{{} {}}}", q, d, q2, d),
                14 => format!("{{{} {} {{}}", q, d),
                15 => format!("{{{} {} [{}]}}", q, d, date),
                16 => format!("{{{} {} @ {} {}}}", q, d, q2, d),
                17 => format!("{{{} {} {} {}}}", q, d, q2, d),
                18 => format!("{{{} {} (x)}}", q, d),
                9 => format!("[{}=]", date),
                10 => format!("[{}] [", date),
                11 => format!("[{},{}]", date, date),
                12 => format!("{{{} {}}} }}", q2, d),
                0 => "[]".to_string(),
                1 => "[ ]".to_string(),
                2 => format!("[ {}]", bad_date(s)),
                3 => format!("[{} foo]", date),
                4 => format!("[{}={}]", date, date),
                5 => format!("{{{} {} foo}}", q2, d),
                6 => format!("{{={} {}}}", q2, d),
                7 => "{}".to_string(),
                _ => "{ }".to_string(),
            };
            (with(s, format!("{}{} {} {}", neg, q, c, l), &other), "unreadable lot")
        }
        8 => {
            let l = if s.chance(1, 2) { format!("{{{} {}", q, d) } else { format!("[{}", date) };
            (with(s, format!("{}{} {} {}", neg, q, c, l), &other), "lot not closed")
        }
        9 => {
            let b = bad_date(s);
            (with(s, format!("{}{} {} [{}]", neg, q, c, b), &other), "bad lot date")
        }
        10 => {
            let f = *s.pick(&["missing.ledger", "/nonexistent/x.ledger", "no dir/y", ".", "./nothing", "", " ", "present.ledger/x", "present.ledger/", "*.ledger", "~/present.ledger", "PRESENT.LEDGER", "Present.ledger", "\"present.ledger\"", "present", "present.ledger.ledger", "<present.ledger>", "'present.ledger'", "$HOME/present.ledger", "present.ledger ; x", "file:present.ledger", "presen?.ledger"]);
            let long = "n".repeat(300);
            let f = if s.chance(1, 8) { &long } else { f };
            std::fs::write(dir.join("present.ledger"), "; nothing\n").unwrap();
            (format!("include {}\n\n", f), "missing include")
        }
        11 => {
            let mut posts = vec![format!("{}  {}{} {}", acct[0], neg, q, c), format!("{}  {} {}", acct[1], q2, d), acct[2].clone()];
            if s.chance(1, 3) {
                posts.push(format!("{}  -{} {}", acct[3], q2, e));
            }
            s.shuffle(&mut posts);
            (x(&head, &posts), "blank posting against several commodities")
        }
        12 => {
            let q = if s.chance(1, 6) { "0".to_string() } else { q };
            let post = if s.chance(1, 4) { acct[0].clone() } else { format!("{}  {}{} {}", acct[0], neg, q, c) };
            (x(&head, &[post]), "single posting")
        }
        13 => {
            let l = match s.below(14) {
                10 => format!("{} {}", at, q2),
                11 => format!("{} {}", at, d),
                12 => format!("[{}]", date),
                13 => format!("{{{} {}}} {} {} {}", q2, d, at, q2, d),
                4 => format!("{}{} {} @ @ {} {}", neg, q, c, q2, d),
                5 => format!("{}{} {} @@@ {} {}", neg, q, c, q2, d),
                6 => format!("{}{} {} {} {{{} {}}}", neg, q, c, at, q2, d),
                7 => format!("{}{} {} {} ({} {})", neg, q, c, at, q2, d),
                8 => format!("@ {} {}", q2, d),
                9 => format!("{{{} {}}}", q2, d),
                0 => c.clone(),
                1 => format!("{}{} {} {} {}", neg, q, c, at, d),
                2 => format!("{}{} {} {{{}}}", neg, q, c, d),
                _ => format!("{}{} {} {}", neg, q, c, at),
            };
            (with(s, l, &other), "commodity without a quantity")
        }
        14 => {
            let more = format!("{}{}", s.pick(&["=", "= ", "(", "!", "*", "#", "|", "%", "&", "/", "?", "x", "é", "+", "+ ", "_", "'", "\"", "<", ">", "~", "^", ":", "=="]), s.pick(&["", "foo", "5", "5 EUR", "2023-01-01"]));
            let l = match s.below(9) {
                6 => format!("{} {} {}", q, c, more),
                7 => format!("{} {} {} {} {} {}", q, c, at, q2, d, more),
                8 => format!("{} {} {{{} {}}} {}", q, c, q2, d, more),
                0 => format!("1 {:03} {}", s.range(0, 999), c),
                1 => format!("{} {} {}", q, c, q2),
                2 => format!("{} {} {}", q, c, e),
                3 => format!("{} {} {} {} {} {} {} {}", q, c, at, q2, d, at, q, d),
                4 => format!("{} {} {} {} {} foo", q, c, at, q2, d),
                _ => format!("{} {} {} {} {} {{{} {}}}", q, c, at, q2, d, q, d),
            };
            (with(s, l, &other), "text after the amount")
        }
        15 => {
            // a posting that is not indented
            let name = format!("X{}", acct[0]);
            (format!("{}\n    {}  {} {}\n{}  -{} {}\n\n", head, acct[1], q, c, name, q, c), "posting not indented")
        }
        16 => {
            let l = match s.below(8) {
                0 => format!("P {} {} {} {}", bad_date(s), c, q, d),
                1 => format!("P {} {} {} {} {}", date, s.pick(&["25:00:00", "13:60:00", "13:00", "1300", "12:00:61"]), c, q, d),
                2 => format!("P {} {} {} {}", date, c, s.pick(BAD_NUMBERS), d),
                3 => format!("P {} {} {} {}", date, c, q, c),
                4 => format!("P {} {} {}", date, c, q),
                5 => format!("P {} {}", date, c),
                6 => format!("P {}", date),
                _ => format!("P {} {} abc {}", date, c, d),
            };
            (l + "\n\n", "malformed price")
        }
        17 => {
            let l = *s.pick(&["foo", "account Assets", "bucket A", "Payee", "year 2023", "D 1000 EUR", "@foo", "!include x", "~ Monthly", "= /x/", "apply tag x", "end", "Price", "payee X", "é", "\"x\"", "(x)", "includes x", "import x", "Y2023", "PP 2023-01-01 EUR 2 USD", "a 2023-01-01 EUR 2 USD", "p 2023-01-01 EUR 2 USD", "X 2023-01-01 EUR 2 USD", "i 2023-01-01 EUR 2 USD", "price 2023-01-01 EUR 2 USD", "in 2023-01-01 10:00:00 EUR 2 USD", "P2023-01-01 EUR 2 USD", "account 2023-01-01 EUR 2 USD"]);
            let l = if s.chance(1, 4) {
                // a character that begins nothing
                let c = loop {
                    let c = if s.chance(3, 4) { s.range(0x21, 0x7e) as u8 as char } else { *s.pick(&['é', '日', '€', '\u{1}', '\u{7f}', '\u{feff}', '§', '¬']) };
                    if !c.is_ascii_alphanumeric() && !";#*|-".contains(c) {
                        break c;
                    }
                };
                format!("{}{}", c, s.pick(&["", " foo", "foo", " 2023-01-01 EUR 2 USD", "2023-01-01 Payee", "5", " 5 EUR"]))
            } else {
                l.to_string()
            };
            (format!("{}\n\n", l), "unknown directive")
        }
        18 => (format!("    {}  {} {}\n\n", acct[0], q, c), "posting outside of a transaction"),
        19 => {
            let l = match s.below(3) {
                0 => format!("{}{} {} {} {}", neg, q, at, q2, c),
                1 => format!("{}{} {} @ {}", neg, q, c, q2),
                _ => format!("{}{} {} @@ {}", neg, q, c, q2),
            };
            (with(s, l, &other), "cost without commodity")
        }
        20 => {
            // a malformed element in an included file
            let inner = match s.below(3) {
                0 => format!("{} Payee\n    {}  {} {}\n    {}\n\n", bad_date(s), acct[0], q, c, acct[1]),
                1 => "nonsense\n".to_string(),
                _ => format!("{}\n    {}  {} {}\n", head, acct[0], bad_number(s, ""), c),
            };
            let f = dir.join("inner.ledger");
            std::fs::write(&f, inner.clone()).unwrap();
            (format!("include inner.ledger\n; inner.ledger is {:?}\n\n", inner), "malformed included file")
        }
        21 => {
            // on a long line, or late in a long transaction
            let n = s.size(1, 20);
            let mut posts: Vec<String> = (0..n).map(|k| format!("{}  {} {}", acct[k % 4], q, c)).collect();
            let b = bad_number(s, &c);
            let k = s.below(n as u64 + 1) as usize;
            posts.insert(k, format!("{}  {}", acct[0], b));
            if s.chance(1, 2) {
                posts.push(acct[1].clone());
            }
            (x(&head, &posts), "unreadable quantity")
        }
        22 => {
            // two blank postings among others, with costs
            let mut posts = vec![acct[0].clone(), acct[1].clone(), format!("{}  {}{} {} {} {} {}", acct[2], neg, q, c, at, q2, d), format!("{}  {} {}", acct[3], q, d)];
            s.shuffle(&mut posts);
            (x(&head, &posts), "two blank postings")
        }
        25 => {
            // files that include each other in a circle
            let n = s.size(1, 3);
            for k in 0..n {
                let before = if s.chance(1, 2) { format!("{} P\n    {}  {} {}\n    {}\n\n", date, acct[0], q, c, acct[1]) } else { String::new() };
                let text = format!("{}include {}circle{}.ledger\n", before, s.pick(&["", "./"]), (k + 1) % n);
                std::fs::write(dir.join(format!("circle{}.ledger", k)), text).unwrap();
            }
            (format!("include circle0.ledger\n; which includes itself through {} files\n\n", n), "file that includes itself")
        }
        23 => {
            let q = if s.chance(1, 6) { "0".to_string() } else { q.clone() };
            let q2 = if s.chance(1, 4) { "0".to_string() } else { q2.clone() };
            (x(&head, &[format!("{}  {}{} {} {} {} {}", acct[0], neg, q, c, at, q2, d)]), "single posting")
        }
        _ => {
            // a blank posting against two commodities, one of them through a cost
            let mut posts = vec![format!("{}  {}{} {} {} {} {}", acct[0], neg, q, c, at, q2, d), format!("{}  {} {}", acct[1], q, e), acct[2].clone()];
            s.shuffle(&mut posts);
            (x(&head, &posts), "blank posting against several commodities")
        }
    }
}

fn c15(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.chance(1, 25) {
        return c15_commands(s, ctx);
    }
    let cfg = Cfg { notes: 5, bulk: s.chance(1, 40), max_xacts: 6, ..Cfg::default() };
    let items = gen_journal(s, &cfg);
    let p = Pools::gen(s, 4, 3, &cfg);
    let (bad, what) = malformed(s, &p, &ctx.scratch);
    ctx.class(what);
    let cut = s.below(items.len() as u64 + 1) as usize;
    let before = spell(s, &items[..cut]);
    let after = spell(s, &items[cut..]);
    let sep = "\n\n";
    let text = format!("{}{}{}{}{}", before, sep, if s.chance(1, 3) { bad.replace('\n', "\r\n") } else { bad.clone() }, "\n", after);
    // without the last line end
    let text = if s.chance(1, 6) { text.trim_end_matches(|c| c == '\n' || c == '\r').to_string() } else { text };
    ctx.text = format!("{}\n--- malformed: {}\n{}", text, what, bad);
    let good = format!("{}{}{}", before, sep, after);
    if read_valid(&good).is_err() {
        ctx.class("refused without it");
        return Ok(());
    }
    ctx.nontrivial = true;
    let how = s.below(8);
    let r = match how {
        0 => lib(|| {
            let mut j = Journal::new();
            j.read(std::io::Cursor::new(text.as_bytes()));
            j.xacts.len()
        }),
        1 => {
            let f = ctx.scratch.join("m.ledger");
            std::fs::write(&f, &text).unwrap();
            let verb = *s.pick(&["b", "accounts"]);
            lib(|| ledger_rs_lib::run(vec![verb.into(), "-f".into(), f.to_str().unwrap().into()]).len())
        }
        _ => lib(|| {
            let mut j = Journal::new();
            read_into(&text, &mut j);
            j.xacts.len()
        }),
    };
    match r {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("a malformed journal ({}) was accepted", what)),
    }
}

fn c15_commands(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = ctx.scratch.join("ok.ledger");
    std::fs::write(&f, "2023-01-01 P\n    A  5 EUR\n    B\n").unwrap();
    let f = f.to_str().unwrap().to_string();
    let missing = ctx.scratch.join("missing.ledger").to_str().unwrap().to_string();
    let args: Vec<String> = match s.below(8) {
        0 => vec![s.pick(&["x", "print", "register", "reg", "budget", "balx", "be", "Balance", "5", "ba", "bala", "balanc", "balances", "bud", "B", "c", "csv", "stats", "prices", "é", "A"]).to_string(), "-f".into(), f],
        1 => vec!["b".into(), "-f".into()],
        2 => vec!["b".into(), format!("-{}", s.pick(&["z", "F", "x", "file"])), f],
        3 => vec!["b".into(), "--file".into(), f],
        4 => vec!["b".into(), "-f".into(), missing],
        5 => vec!["-f".into(), f],
        6 => vec!["accounts".into(), "-f".into(), f, "-f".into(), missing],
        _ => vec!["b".into(), "-f".into(), ctx.scratch.to_str().unwrap().into()],
    };
    ctx.class("command");
    ctx.text = format!("command {:?}", args);
    ctx.nontrivial = true;
    if s.chance(1, 8) {
        ctx.class("program");
        let exe = std::env::current_exe().unwrap().with_file_name("repo-cli");
        let out = std::process::Command::new(exe).args(&args).output().expect("the program starts");
        if out.status.success() {
            return Err("the program succeeds".into());
        }
    }
    match lib(|| ledger_rs_lib::run(args)) {
        Err(_) => Ok(()),
        Ok(r) => Err(format!("the command was answered with {} lines", r.len())),
    }
}

pub const C16: Prop = Prop {
    id: "C16",
    case: c16,
    quick: 250_000,
    thorough: 2_000_000,
    rule: "Text made by mutating generated journals (and by stringing together tokens of the format). Whatever is accepted is checked for consistency. Non-trivial: mutated at least once; class counts tell how many were accepted; distinct by text.",
};

const TOKENS: &[&str] = &[
    ";", "@", "@@", "{", "}", "[", "]", "(", ")", "-", ".", ",", "=", "*", "!", "#", "|", "\t", " ", "  ", "\r\n", "\n", "\n\n", "0", "9", "5 EUR", "é", "\u{0}", "\u{a0}", "\u{2003}", "\u{feff}", "日",
    "2023-01-01", "2023-02-30 X\n", "P ", "EUR", "\"", "'", ":", "::", "A:B", "    A  1 EUR\n", "    B\n", "; note\n", "1e5", "+5", "_", "\\", "$", "\u{1F600}", "٣", "{5 USD}", "[2023-01-01]", "@ 2 USD", "\u{85}", "\u{2028}", "\r",
    "%", "&", "/", "<", ">", "?", "^", "`", "~", "+", "\u{1a}", "\u{1b}", "\u{7}", "\u{b}", "\u{c}", "\u{7f}", "\u{200b}", "\u{4}",
    "A", "C", "D", "N", "Y", "b", "c", "d", "e", "p", "t", "v", "y", "i", "h", "o", "comment", "end", "test", "year", "tag",
];

fn mutate(s: &mut Src, text: String) -> String {
    let mut chars: Vec<char> = text.chars().collect();
    match s.below(9) {
        0 if !chars.is_empty() => {
            let i = s.below(chars.len() as u64) as usize;
            chars.remove(i);
        }
        1 => {
            let i = s.below(chars.len() as u64 + 1) as usize;
            let t: Vec<char> = s.pick(TOKENS).chars().collect();
            chars.splice(i..i, t);
        }
        2 if !chars.is_empty() => {
            let i = s.below(chars.len() as u64) as usize;
            let t: Vec<char> = s.pick(TOKENS).chars().collect();
            chars.splice(i..i + 1, t);
        }
        3 if !chars.is_empty() => {
            // a stretch removed
            let i = s.below(chars.len() as u64) as usize;
            let n = s.size(1, 12).min(chars.len() - i);
            chars.drain(i..i + n);
        }
        4 | 5 => {
            // lines moved, repeated or dropped
            let mut lines: Vec<String> = text.split_inclusive('\n').map(|x| x.to_string()).collect();
            if lines.len() > 1 {
                let i = s.below(lines.len() as u64) as usize;
                let k = s.below(lines.len() as u64) as usize;
                match s.below(4) {
                    0 => {
                        lines.remove(i);
                    }
                    1 => {
                        let l = lines[i].clone();
                        lines.insert(k, l);
                    }
                    2 => lines.swap(i, k),
                    _ => lines[i] = format!("{}\n", s.pick(TOKENS)),
                }
            }
            return lines.concat();
        }
        6 => {
            // cut off
            let n = s.below(chars.len() as u64 + 1) as usize;
            chars.truncate(n);
        }
        7 => {
            // the end of one line replaced
            let mut lines: Vec<String> = text.split('\n').map(|x| x.to_string()).collect();
            let i = s.below(lines.len() as u64) as usize;
            let n = s.size(1, 4);
            for _ in 0..n {
                let t: &str = *s.pick(TOKENS);
                lines[i] += t;
            }
            return lines.join("\n");
        }
        _ => {
            if chars.len() > 1 {
                let i = s.below(chars.len() as u64 - 1) as usize;
                chars.swap(i, i + 1);
            }
        }
    }
    chars.into_iter().collect()
}

fn c16(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut text = if s.chance(1, 6) {
        let n = s.size(1, 25);
        (0..n).map(|_| *s.pick(TOKENS)).collect::<String>()
    } else {
        let (max_xacts, prices) = if s.chance(1, 4) { (14, 30) } else { (5, 10) };
        let cfg = Cfg { notes: 10, bulk: s.chance(1, 60), max_xacts, prices, ..Cfg::default() };
        let items = gen_journal(s, &cfg);
        spell(s, &items)
    };
    let mutations = if s.chance(1, 4) { s.below(2) as usize } else { s.size(0, 4) };
    for _ in 0..mutations {
        text = mutate(s, text);
        ctx.nontrivial = true;
    }
    // other files are another property's subject
    while text.contains("include") {
        text = text.replace("include", "inclxde");
    }
    ctx.text = text.clone();
    let j = lib(|| {
        let mut j = Journal::new();
        read_into(&text, &mut j);
        j
    });
    let j = match j {
        Err(_) => {
            ctx.class("refused");
            return Ok(());
        }
        Ok(j) => j,
    };
    ctx.class("accepted");
    lib(|| consistent(&j, &text)).map_err(|e| format!("what was read could not be walked: {}", e))??;
    let mut wide = false;
    for x in &j.xacts {
        for p in &x.posts {
            wide |= p.amount.map_or(false, |a| dec(&a.quantity).map_or(true, |d| d.digits() + 28 > 45 || d.scale() > 10));
        }
    }
    match lib(|| ledger_rs_lib::report::balance_report(&j)) {
        Ok(lines) => {
            let n = account_map(&j).len();
            if lines.len() != n {
                return Err(format!("the report has {} lines for {} accounts", lines.len(), n));
            }
            Ok(())
        }
        Err(e) if wide => {
            let _ = e;
            ctx.class("totals out of range");
            Ok(())
        }
        Err(e) => Err(format!("the report of an accepted journal failed: {}", e)),
    }
}

/// A transaction of an accepted text has the date, payee, accounts and numbers that its lines have.
/// Only what the lines say beyond doubt is compared.
fn as_written(x: &Xact, accounts: &std::collections::HashMap<usize, Vec<String>>, header: &str, lines: &[&str]) -> R {
    let odd = |t: &str| t.chars().any(|c| c != ' ' && c.is_whitespace());
    let strange = odd(header.strip_suffix('\r').unwrap_or(header));
    let header = header.trim_end();
    if !strange {
        let (date, rest) = header.split_at(header.find(|c| c == '=' || c == ' ').unwrap_or(header.len()));
        if chrono::NaiveDate::parse_from_str(date, "%Y-%m-%d").map_or(false, |d| Some(d) != x.date) {
            return Err(format!("{:?} was read as a transaction of {:?}", header, x.date));
        }
        let rest = if rest.starts_with('=') { rest.split_at(rest.find(' ').unwrap_or(rest.len())).1 } else { rest };
        let payee = rest.split("  ;").next().unwrap().trim();
        if x.payee != if payee.is_empty() { "Unknown Payee" } else { payee } {
            return Err(format!("{:?} was read as a transaction with {:?}", header, x.payee));
        }
    }
    if x.posts.len() != lines.len() {
        return Err(format!("{} postings were read from the {} posting lines after {:?}", x.posts.len(), lines.len(), header));
    }
    let mut blanks = 0;
    let mut sums: BTreeMap<String, Dec> = BTreeMap::new();
    let mut plain = true;
    for (p, line) in x.posts.iter().zip(lines) {
        let content = line.trim();
        let (account, rest) = match content.find("  ") {
            Some(i) => (&content[..i], content[i..].split(';').next().unwrap().trim()),
            None => (content, ""),
        };
        plain &= !odd(line.strip_suffix('\r').unwrap_or(line)) && !account.contains(';');
        if plain && account.split(':').all(|t| !t.is_empty()) {
            let have = accounts.get(&(p.account as usize)).map(|a| a.join(":"));
            if have.as_deref() != Some(account) {
                return Err(format!("{:?} was read as a posting to {:?}", line, have));
            }
        }
        let have = p.amount.as_ref().map(|a| amount(a, None)).transpose()?;
        let cost = p.cost.as_ref().map(|a| amount(a, None)).transpose()?;
        if let Some(c) = cost.as_ref().or(have.as_ref()) {
            plain &= c.q.digits() < 20 && c.q.scale() < 9;
            let t = sums.entry(c.sym.clone()).or_insert(Dec::zero());
            *t = t.add(&c.q);
        }
        if rest.is_empty() {
            blanks += 1;
            continue;
        }
        let number = |c: char| c.is_ascii_digit() || c == '-' || c == '.' || c == ',';
        let start = match rest.chars().next() {
            Some(c) if number(c) => rest,
            _ => rest.trim_start_matches(|c: char| !(c.is_whitespace() || c == '@' || c.is_ascii_digit() || c == '-')).trim_start(),
        };
        let digits = &start[..start.find(|c| !number(c)).unwrap_or(start.len())];
        if let (true, Some(want), Some(have)) = (plain, number_of(digits), &have) {
            if have.q != want {
                return Err(format!("{:?} was read as {} {}", line, have.q, have.sym));
            }
        }
    }
    if plain && blanks == 1 && sums.values().any(|t| !t.is_zero()) {
        return Err(format!("the transaction {:?} with a blank posting does not balance", header));
    }
    Ok(())
}

/// A plain decimal number.
fn number_of(text: &str) -> Option<Dec> {
    let (sign, body) = match text.strip_prefix('-') {
        Some(b) => (-1, b),
        None => (1, text),
    };
    let (int, frac) = body.split_once('.').unwrap_or((body, ""));
    let all: String = format!("{}{}", int, frac);
    if all.is_empty() || all.len() > 27 || !all.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    Some(Dec::new(sign * all.parse::<i128>().ok()?, frac.len() as u32))
}

/// An accepted text holds what its lines say: nothing dropped, nothing half done, every link intact.
fn consistent(j: &Journal, text: &str) -> R {
    let mut headers = 0;
    let mut postings = 0;
    // the lines of each transaction: its header and its postings
    let mut written: Vec<(&str, Vec<&str>)> = vec![];
    let mut inside = false;
    let prices = crate::hook::price_points(&j.commodity_pool);
    for line in text.split('\n') {
        let Some(first) = line.chars().next() else {
            inside = false;
            continue;
        };
        if line.trim().is_empty() {
            inside = false;
        } else if matches!(first, ' ' | '\t') {
            if !inside {
                return Err(format!("the line {:?} stands outside of a transaction and was accepted", line));
            }
            if !line.trim_start().starts_with(';') {
                postings += 1;
                written.last_mut().unwrap().1.push(line);
            }
        } else if inside {
            return Err(format!("the line {:?} within a transaction was accepted", line));
        } else if first.is_ascii_digit() {
            headers += 1;
            written.push((line, vec![]));
            inside = true;
        } else if first == 'P' {
            let date = line.split(|c| c == ' ' || c == '\t').filter(|t| !t.is_empty()).nth(1).unwrap_or("");
            // a date in the plain form
            let plain = date.len() == 10 && date.is_ascii();
            let known = chrono::NaiveDate::parse_from_str(date, "%Y-%m-%d").map_or(!plain, |d| prices.iter().any(|p| p.2.date() == d));
            if !known && crate::hook::AVAILABLE {
                return Err(format!("the line {:?} was accepted without a price of that date", line));
            }
        } else if !matches!(first, ';' | '#' | '*' | '|' | '-') {
            return Err(format!("the line {:?} was accepted", line));
        }
    }
    if j.xacts.len() != headers {
        return Err(format!("{} transactions were read from {} headers", j.xacts.len(), headers));
    }
    let n: usize = j.xacts.iter().map(|x| x.posts.len()).sum();
    if n != postings {
        return Err(format!("{} postings were read from {} posting lines", n, postings));
    }
    let accounts = account_map(j);
    let mut by_account: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut sums: BTreeMap<String, Dec> = BTreeMap::new();
    let mut exact = true;
    for (i, x) in j.xacts.iter().enumerate() {
        if x.date.is_none() {
            return Err(format!("transaction {} has no date", i));
        }
        as_written(x, &accounts, written[i].0, &written[i].1)?;
        for p in &x.posts {
            if !accounts.contains_key(&(p.account as usize)) {
                return Err("a posting's account is not in the account tree".into());
            }
            if p.xact_ptr as usize != x as *const Xact as usize {
                return Err("a posting does not lead back to its transaction".into());
            }
            let Some(a) = &p.amount else {
                return Err(format!("transaction {}: a posting was left without an amount", i));
            };
            for a in [Some(a), p.cost.as_ref()].into_iter().flatten() {
                if let Some(c) = a.get_commodity() {
                    match j.commodity_pool.find(&c.symbol) {
                        Some(found) if found as *const Commodity == c as *const Commodity => (),
                        _ => return Err(format!("commodity {:?} is not in the pool", c.symbol)),
                    }
                }
            }
            let a = amount(a, None)?;
            exact &= a.q.digits() < 20 && a.q.scale() < 9;
            let t = sums.entry(a.sym).or_insert(Dec::zero());
            *t = t.add(&a.q);
            by_account.entry(p.account as usize).or_default().push(&**p as *const Post as usize);
        }
    }
    for a in j.master.flatten_account_tree() {
        let have: Vec<usize> = a.posts.iter().map(|p| *p as usize).collect();
        let want = by_account.remove(&(a as *const _ as usize)).unwrap_or_default();
        if have != want {
            return Err(format!("account {:?} lists {} postings, {} refer to it", a.fullname(), have.len(), want.len()));
        }
    }
    if exact {
        let mut got: BTreeMap<String, Dec> = BTreeMap::new();
        for a in &j.master.total().amounts {
            let a = amount(a, None)?;
            if got.insert(a.sym.clone(), a.q).is_some() {
                return Err(format!("the total lists {:?} twice", a.sym));
            }
        }
        if got != sums {
            return Err("the total is not the sum of the postings".into());
        }
    }
    for (src, dst, _, _) in crate::hook::price_points(&j.commodity_pool) {
        if j.commodity_pool.find(&src).is_none() || j.commodity_pool.find(&dst).is_none() {
            return Err(format!("a price of {:?} in {:?}: not in the pool", src, dst));
        }
    }
    Ok(())
}
