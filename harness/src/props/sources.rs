use super::reading::{diff_snap, same_lines};
use super::*;
use std::io::{Error, ErrorKind, Read};
use std::path::{Path, PathBuf};

pub const C12: Prop = Prop {
    id: "C12",
    case: c12,
    quick: 50_000,
    thorough: 700_000,
    rule: "A generated journal read as one text, and again divided: into several texts, files, nested included files, or a source that delivers a few bytes at a time. Non-trivial: at least two parts or reads; distinct by text and division.",
};

/// Delivers the data in pieces; sometimes it is interrupted, once at a time.
pub struct Pieces {
    pub data: Vec<u8>,
    pub pos: usize,
    pub sizes: Vec<usize>,
    pub turn: usize,
    pub interrupts: bool,
    pub interrupted: bool,
    /// after this many bytes, every read fails
    pub fail: Option<(usize, ErrorKind)>,
    /// but only once: from then on the source goes on, or is at its end
    pub once: Option<bool>,
    pub after_end: usize,
}
impl Pieces {
    pub fn new(data: &[u8], sizes: Vec<usize>) -> Pieces {
        Pieces { data: data.to_vec(), pos: 0, sizes, turn: 0, interrupts: false, interrupted: false, fail: None, once: None, after_end: 0 }
    }
}
impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupts && !self.interrupted && self.turn % 3 == 1 {
            self.interrupted = true;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        self.interrupted = false;
        let mut end = self.data.len();
        if let Some((at, kind)) = self.fail {
            if self.pos >= at {
                if let Some(goes_on) = self.once {
                    self.fail = None;
                    if !goes_on {
                        self.data.truncate(at);
                    }
                }
                return Err(Error::new(kind, "injected"));
            }
            end = at.min(end);
        }
        if self.pos >= end {
            self.after_end += 1;
            if self.after_end > 1000 {
                panic!("the source is read again and again after its end");
            }
            return Ok(0);
        }
        let want = self.sizes[self.turn % self.sizes.len()].max(1);
        self.turn += 1;
        let n = want.min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

const FILES: &[&str] = &["a.ledger", "my file.ledger", "b", "žluť.txt", "x y  z.dat", "sub/c.ledger", "sub dir/d.ledger", "e;f.ledger", "#g", "P 1", "include me", "-h.ledger", "i'j.ledger", "k\"l", ".m.ledger", "..n", ".o/p.ledger", "q:r", "2023-01-01", "a,b=c", "100%", "$HOME", "(s)", "*t", "UPPER.LEDGER", "\"u\"", "'v'", "<w>", "x.ledger\"", "a%20b", "file:y", "z ; not a comment", "a  ;b", "c  # d", "e\tf"];

/// Empties the scratch folder of the worker.
fn clean(dir: &Path) {
    if let Ok(entries) = std::fs::read_dir(dir) {
        for e in entries.flatten() {
            let p = e.path();
            if p.is_dir() {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

struct Files<'a> {
    dir: PathBuf,
    count: usize,
    shown: &'a mut String,
    /// items that come twice in a row, from one file included twice: where, how many
    twice: Option<(usize, usize)>,
}
impl<'a> Files<'a> {
    fn write(&mut self, s: &mut Src, content: &str) -> String {
        let base = *s.pick(FILES);
        self.count += 1;
        // the number keeps the names apart
        let end = s.chance(1, 2);
        let name = match base.rsplit_once('/') {
            // as it is, in a folder of its own
            None if s.chance(1, 4) => format!("{}{}/{}", s.pick(&["", "d ", "\"", "ä"]), self.count, base),
            Some((d, f)) if end => format!("{}/{}{}", d, f, self.count),
            None if end => format!("{}{}", base, self.count),
            Some((d, f)) => format!("{}/{}{}", d, self.count, f),
            None => format!("{}{}", self.count, base),
        };
        let name = if s.chance(1, 25) {
            // a long name
            let pad = *s.pick(&["x", "long ", "a;b", "v.", "k=", "2"]);
            let mut fill = pad.repeat(s.size(1, 220 / pad.len() - 10));
            fill.push('y');
            format!("{}{}", name, fill)
        } else {
            name
        };
        let full = self.dir.join(&name);
        std::fs::create_dir_all(full.parent().unwrap()).unwrap();
        std::fs::write(&full, content).unwrap();
        if content.len() > 200_000 {
            *self.shown += &format!("--- file {:?}, {} bytes\n{}...\n", name, content.len(), content.chars().take(100).collect::<String>());
        } else {
            *self.shown += &format!("--- file {:?}\n{}\n", name, content);
        }
        name
    }
    /// A file with the items, some of them moved to included files.
    fn tree(&mut self, s: &mut Src, items: &[Item], depth: usize) -> String {
        let mut out = String::new();
        let mut i = 0;
        let twice = self.twice.take();
        while i < items.len() {
            let doubled = twice.map_or(false, |(at, _)| at == i);
            if depth > 0 && (doubled || s.chance(2, 5)) {
                let n = match twice {
                    Some((at, n)) if doubled && at == i => n,
                    Some((at, _)) if i < at => s.size(0, (at - i).min(5)),
                    _ => s.size(0, (items.len() - i).min(5)),
                };
                let name = self.tree(s, &items[i..i + n], depth - 1);
                if doubled {
                    out += &format!("include {}\n", name);
                    i += n;
                }
                i += n;
                if s.chance(1, 12) {
                    // another file that is not meant: of the same name, in another folder
                    for d in ["sub", "sub dir", ".o"] {
                        let decoy = self.dir.join(d).join(&name);
                        if !decoy.exists() && std::fs::create_dir_all(decoy.parent().unwrap()).is_ok() {
                            let _ = std::fs::write(&decoy, "2001-01-01 Not this file\n    Decoy  1 QZ\n    Decoy:Other\n");
                        }
                    }
                }
                let path = match s.below(4) {
                    0 => name,
                    1 => format!("./{}", name),
                    2 => format!("../{}/{}", self.dir.file_name().unwrap().to_str().unwrap(), name),
                    _ => self.dir.join(&name).to_str().unwrap().to_string(),
                };
                out += &format!("include{}{}{}{}\n", " ".repeat(s.size(1, 3)), path, " ".repeat(s.size(0, 2)), if s.chance(1, 8) { "\r" } else { "" });
                if s.chance(1, 2) {
                    out += "\n";
                }
                continue;
            }
            let mut r = Render::new(s, if i % 2 == 0 { Style::Plain } else { Style::Free });
            out += &r.item(&items[i]);
            out += &r.filler();
            i += 1;
        }
        if s.chance(1, 4) {
            let t = out.trim_end_matches(|c| c == '\n' || c == '\r').len();
            out.truncate(t);
        }
        if s.chance(1, 3000) {
            // a large file, of which most says nothing
            let lines = s.size(1, 60_000);
            out = format!("{}\n{}", format!("; {}\n", "filler ".repeat(6)).repeat(lines), out);
        }
        self.write(s, &out)
    }
}

fn same_journal(m: &Model, a: &Journal, b: &Journal) -> R {
    diff_snap(&snapshot(a, m)?, &snapshot(b, m)?)?;
    let (pa, pb) = lib(|| (prices(a), prices(b)))?;
    if pa? != pb? {
        return Err("the prices differ".into());
    }
    let (ra, rb) = lib(|| (ledger_rs_lib::report::balance_report(a), ledger_rs_lib::report::balance_report(b)))?;
    same_lines(&ra, &rb)
}

fn c12(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { notes: 12, bulk: s.chance(1, 10), ..Cfg::default() };
    let mut items = gen_journal(s, &cfg);
    let mode = s.below(5);
    let mut twice = None;
    if (mode == 2 || mode == 3) && !items.is_empty() && s.chance(1, 4) {
        let at = s.below(items.len() as u64) as usize;
        let n = s.size(1, (items.len() - at).min(5));
        let again = items[at..at + n].to_vec();
        items.splice(at + n..at + n, again);
        twice = Some((at, n));
        ctx.class("a file included twice");
    }
    let m = Model::of(&items);
    let whole = render::plain(s, &items);
    classify(ctx, &items, &whole);
    ctx.text = whole.clone() + "\n";
    let Ok(reference) = read_valid(&whole) else {
        ctx.class("refused as a whole");
        return Ok(());
    };
    ctx.evals = 2;
    let mut j = Journal::new();
    let refused = |e: String| format!("the divided journal was refused: {}", e);
    match mode {
        0 | 1 => {
            let files = mode == 1;
            ctx.class(if files { "several files" } else { "several texts" });
            let dir = ctx.scratch.clone();
            let mut i = 0;
            let mut parts = 0;
            let mut shown = String::new();
            let mut f = Files { dir: dir.clone(), count: 0, shown: &mut shown, twice: None };
            let mut names = vec![];
            while i < items.len() || parts == 0 {
                let n = s.size(0, (items.len() - i).min(6));
                let text = render::free(s, &items[i..i + n]);
                i += n;
                parts += 1;
                if files {
                    names.push(f.write(s, &text));
                } else {
                    *f.shown += &format!("--- text\n{}\n", text);
                    if s.chance(1, 2) {
                        lib(|| ledger_rs_lib::parse_text(&text, &mut j)).map_err(refused)?;
                    } else {
                        let before = j.xacts.len();
                        let got = lib(|| j.read(std::io::Cursor::new(text.as_bytes().to_vec()))).map_err(refused)?;
                        let want = j.xacts.len();
                        // of this reading, or of all
                        if got != want && got != want - before.min(want) {
                            return Err(format!("reading reports {} transactions, the journal has {}", got, want));
                        }
                    }
                }
                if parts > 400 {
                    break;
                }
            }
            if i < items.len() {
                let text = render::plain(s, &items[i..]);
                if files {
                    names.push(f.write(s, &text));
                } else {
                    lib(|| ledger_rs_lib::parse_text(&text, &mut j)).map_err(refused)?;
                }
            }
            ctx.text += &shown;
            ctx.nontrivial = parts >= 2;
            if files {
                let r = lib(|| {
                    for name in &names {
                        ledger_rs_lib::parse_file(name, &mut j);
                    }
                });
                // and as files of a command
                let mut args = vec!["balance".to_string()];
                for n in &names {
                    args.push("-f".into());
                    args.push(n.clone());
                }
                let run = lib(|| ledger_rs_lib::run(args));
                clean(&dir);
                r.map_err(refused)?;
                let run = run.map_err(refused)?;
                same_lines(&lib(|| ledger_rs_lib::report::balance_report(&reference))?, &run)?;
            }
        }
        2 | 3 => {
            ctx.class("included files");
            let dir = ctx.scratch.clone();
            let mut shown = String::new();
            let mut f = Files { dir: dir.clone(), count: 0, shown: &mut shown, twice: None };
            f.twice = twice;
            let depth = s.size(1, 4);
            let mut main = f.tree(s, &items, depth);
            if s.chance(1, 8) {
                // at the end of a chain of files
                for _ in 0..s.size(1, 40) {
                    main = f.write(s, &format!("include {}\n", main));
                }
            }
            let count = f.count;
            ctx.nontrivial = count >= 2;
            ctx.class_if(count >= 4, "four or more files");
            ctx.text += &shown;
            let r = if mode == 2 {
                lib(|| ledger_rs_lib::parse_file(&main, &mut j))
            } else {
                let text = format!("include {}\n", main);
                lib(|| ledger_rs_lib::parse_text(&text, &mut j))
            };
            clean(&dir);
            r.map_err(refused)?;
        }
        _ => {
            ctx.class("in pieces");
            let n = s.size(1, 4);
            let sizes: Vec<usize> = (0..n).map(|_| if s.chance(1, 2) { s.size(1, 7) } else { s.size(1, 3000) }).collect();
            ctx.text += &format!("--- read in pieces of {:?}\n", sizes);
            let mut p = Pieces::new(whole.as_bytes(), sizes);
            p.interrupts = s.chance(1, 2);
            ctx.nontrivial = true;
            lib(|| j.read(p)).map_err(refused)?;
        }
    }
    same_journal(&m, &reference, &j).map_err(|e| format!("the divided journal reads differently: {}", e))?;
    super::prices::check_lots(&mut j, &m)
}

pub const C13: Prop = Prop {
    id: "C13",
    case: c13,
    quick: 40_000,
    thorough: 300_000,
    rule: "Generated journal files and a command in a random form (argument list, command string, program), its output compared with the report of the journal. Non-trivial: at least two accounts; distinct by files and command.",
};

fn quote(s: &mut Src, arg: &str) -> String {
    match s.below(3) {
        0 if !arg.contains('\'') => format!("'{}'", arg),
        1 if !arg.contains(|c| "\"\\$`".contains(c)) => format!("\"{}\"", arg),
        _ => {
            let mut out = String::new();
            for c in arg.chars() {
                if !(c.is_alphanumeric() || "-_./".contains(c)) {
                    out.push('\\');
                }
                out.push(c);
            }
            out
        }
    }
}

fn c13(s: &mut Src, ctx: &mut Ctx) -> R {
    let many = s.chance(1, 150);
    let nf = if many { s.size(4, 40) } else { s.weighted(&[0, 5, 2, 1]) };
    ctx.class_if(many, "many files");
    let dir = ctx.scratch.clone();
    let mut shown = String::new();
    let mut names = vec![];
    let mut files: Vec<Vec<Item>> = vec![];
    let mut accounts = 0;
    {
        let mut f = Files { dir: dir.clone(), count: 0, shown: &mut shown, twice: None };
        for _ in 0..nf {
            let cfg = Cfg { notes: 5, bulk: !many && s.chance(1, 10), huge: false, max_xacts: if many { 4 } else { 14 }, ..Cfg::default() };
            let items = gen_journal(s, &cfg);
            accounts += Model::of(&items).accounts.len();
            let text = spell(s, &items);
            names.push(f.write(s, &text));
            files.push(items);
        }
    }
    if s.chance(1, 12) {
        // the same file twice
        let again = s.below(names.len() as u64) as usize;
        names.push(names[again].clone());
        files.push(files[again].clone());
    }
    let absolute = s.chance(1, 3);
    let paths: Vec<String> = names
        .iter()
        .map(|n| {
            if absolute {
                dir.join(n).to_str().unwrap().to_string()
            } else if n.starts_with('-') && s.chance(1, 2) {
                format!("./{}", n)
            } else {
                n.clone()
            }
        })
        .collect();
    let verb = *s.pick(&["balance", "b", "bal", "accounts", "a"]);
    // the options, in any position
    let mut args: Vec<String> = vec![];
    if paths.len() >= 2 && s.chance(1, 6) {
        args.push(format!("-{}", "f".repeat(paths.len())));
        args.extend(paths.iter().cloned());
        if s.chance(1, 2) {
            args.insert(0, verb.into());
        } else {
            args.push(verb.into());
        }
    } else {
        let at = s.below(paths.len() as u64 + 1) as usize;
        for (i, p) in paths.iter().enumerate() {
            if i == at {
                args.push(verb.into());
            }
            args.push("-f".into());
            args.push(p.clone());
        }
        if at == paths.len() {
            args.push(verb.into());
        }
    }
    ctx.text = format!("{}--- command {:?}\n", shown, args);
    ctx.nontrivial = accounts >= 2;
    ctx.class(&format!("{} files", paths.len()));
    // the reference: the journal's own report
    let reference = lib(|| {
        let mut j = Journal::new();
        for p in &paths {
            ledger_rs_lib::parse_file(p, &mut j);
        }
        if verb.starts_with('b') {
            ledger_rs_lib::report::balance_report(&j)
        } else {
            let mut r = ledger_rs_lib::report::report_accounts(&j);
            r.sort();
            r
        }
    });
    let Ok(want) = reference else {
        clean(&dir);
        ctx.class("refused");
        return Ok(());
    };
    // and what the data say
    let m = Model::of(&files.concat());
    if verb.starts_with('b') {
        super::reports::lines_match(&want, &m.totals())?;
    } else if want.len() != m.accounts.len() + 1 {
        return Err(format!("the accounts report has {} lines for {} accounts", want.len(), m.accounts.len()));
    }
    let command = args.iter().map(|a| quote(s, a)).collect::<Vec<_>>().join(if s.chance(1, 4) { "  " } else { " " });
    ctx.text += &format!("--- as a string {}\n", command);
    let by_list = lib(|| ledger_rs_lib::run(args.clone()));
    let by_string = lib(|| ledger_rs_lib::run_command(&command));
    let program = if s.chance(1, 8) {
        let exe = std::env::current_exe().unwrap().with_file_name("repo-cli");
        Some(std::process::Command::new(exe).args(&args).output().expect("the program starts"))
    } else {
        None
    };
    clean(&dir);
    ctx.evals = if program.is_some() { 3 } else { 2 };
    for (what, got) in [("the argument list", by_list), ("the command string", by_string)] {
        let got = got.map_err(|e| format!("{} was refused: {}", what, e))?;
        if got != want {
            let d = got.iter().zip(&want).find(|(a, b)| a != b);
            return Err(format!("{} gives {} lines, the report has {}; first difference {:?}", what, got.len(), want.len(), d));
        }
    }
    if let Some(out) = program {
        ctx.class("program");
        if !out.status.success() {
            return Err(format!("the program failed: {}", String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>()));
        }
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        // every line of the report, in order, either as it is or quoted
        let mut pos = 0;
        for line in &want {
            let quoted = format!("{:?}", line);
            let found = text[pos..].find(&quoted).map(|i| i + quoted.len()).or_else(|| {
                let whole = format!("\n{}\n", line);
                text[pos..].find(&whole).map(|i| i + whole.len() - 1)
            });
            match found {
                Some(n) => pos += n,
                None => return Err(format!("the program does not print {:?}: {}", line, text.chars().take(1500).collect::<String>())),
            }
        }
        if verb.starts_with('b') && !paths.iter().any(|p| p.contains(" has balance")) && text.matches(" has balance").count() != want.len() {
            return Err("the program prints more lines than the report has".into());
        }
    }
    Ok(())
}

pub const C19: Prop = Prop {
    id: "C19",
    case: c19,
    quick: 45_000,
    thorough: 200_000,
    rule: "A generated journal whose source fails (read error, or bytes that are not UTF-8) at a chosen byte; small journals are tried at every byte. One evaluation per fault. Non-trivial: the fault lies strictly inside a journal of at least one transaction; distinct by text and faults.",
};
fn c19(s: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { notes: 12, bulk: s.chance(1, 60), huge: false, max_xacts: 6, ..Cfg::default() };
    let items = gen_journal(s, &cfg);
    let text = spell(s, &items);
    classify(ctx, &items, &text);
    ctx.text = text.clone() + "\n";
    let bytes = text.as_bytes();
    if read_valid(&text).is_err() {
        ctx.class("refused without a fault");
        return Ok(());
    }
    let exhaustive = bytes.len() <= 160;
    ctx.class_if(exhaustive, "every byte");
    let points: Vec<usize> = if exhaustive {
        (0..=bytes.len()).collect()
    } else {
        let mut p: Vec<usize> = (0..10).map(|_| s.below(bytes.len() as u64 + 1) as usize).collect();
        // after each of some line ends, and at the end
        let ends: Vec<usize> = bytes.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1).collect();
        for _ in 0..6 {
            if !ends.is_empty() {
                p.push(*s.pick(&ends));
            }
        }
        p.push(bytes.len());
        p
    };
    let kinds = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::NotFound, ErrorKind::ConnectionAborted, ErrorKind::InvalidInput, ErrorKind::WriteZero, ErrorKind::OutOfMemory, ErrorKind::Unsupported];
    let by_file = s.chance(1, 10);
    let dir = ctx.scratch.clone();
    ctx.evals = 0;
    ctx.nontrivial = !items.is_empty() && points.iter().any(|p| *p > 0 && *p < bytes.len());
    for at in points {
        ctx.evals += 1;
        if s.chance(1, 2) {
            let kind = *s.pick(&kinds);
            let mut p = Pieces::new(bytes, vec![s.size(1, 9000)]);
            p.fail = Some((at, kind));
            p.once = match s.below(3) {
                0 => None,
                1 => Some(false),
                _ => Some(true),
            };
            let once = p.once;
            let r = lib(|| {
                let mut j = Journal::new();
                j.read(p);
                j.xacts.len()
            });
            if let Ok(n) = r {
                ctx.text += &format!("--- read error {:?} after {} bytes{}\n", kind, at, match once {
                    None => "",
                    Some(true) => ", once, then the source goes on",
                    Some(false) => ", once, then the source ends",
                });
                return Err(format!("the source failed ({:?}) after {} of {} bytes and {} transactions were returned as the journal", kind, at, bytes.len(), n));
            }
            ctx.class("read error");
        } else {
            let bad: &[u8] = *s.pick(&[&[0xffu8][..], &[0xc0, 0xaf], &[0x80], &[0xed, 0xa0, 0x80], &[0xf8, 0x88, 0x80], &[0xc3]]);
            // at a character boundary, so that what is inserted is what is wrong
            let mut k = at;
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            let mut data = bytes[..k].to_vec();
            data.extend_from_slice(bad);
            data.extend_from_slice(&bytes[k..]);
            if std::str::from_utf8(&data).is_ok() {
                continue;
            }
            let (what, r) = if by_file {
                let f = dir.join("bad.ledger");
                std::fs::write(&f, &data).unwrap();
                let name = f.to_str().unwrap().to_string();
                match s.below(3) {
                    0 => ("file", lib(|| {
                        let mut j = Journal::new();
                        ledger_rs_lib::parse_file(&name, &mut j);
                        j.xacts.len()
                    })),
                    1 => ("command", lib(|| ledger_rs_lib::run(vec!["b".into(), "-f".into(), name.clone()]).len())),
                    _ => ("included file", lib(|| {
                        let mut j = Journal::new();
                        ledger_rs_lib::parse_text(&format!("include {}\n", name), &mut j);
                        j.xacts.len()
                    })),
                }
            } else {
                let p = Pieces::new(&data, vec![s.size(1, 9000)]);
                ("source", lib(|| {
                    let mut j = Journal::new();
                    j.read(p);
                    j.xacts.len()
                }))
            };
            if r.is_ok() {
                ctx.text += &format!("--- bytes {:?} inserted at {}\n", bad, k);
                return Err(format!("a {} with the invalid bytes {:x?} at {} was read as a journal", what, bad, k));
            }
            ctx.class("invalid UTF-8");
            ctx.class_if(by_file, "in a file");
        }
    }
    if by_file {
        clean(&dir);
        std::fs::write(dir.join("present"), "").unwrap();
        let long = "n".repeat(300);
        for name in ["missing.ledger", ".", "no/such/dir/x.ledger", "present/x", "present/", "nul\0", &long] {
            ctx.evals += 1;
            let full = dir.join(name);
            let full = full.to_str().unwrap();
            if lib(|| ledger_rs_lib::parse_file(full, &mut Journal::new())).is_ok() {
                return Err(format!("the file {:?} was read without an error", name));
            }
            // after another file
            std::fs::write(dir.join("good"), "2023-01-01 P\n    A  1 EUR\n    B\n").unwrap();
            let good = dir.join("good").to_str().unwrap().to_string();
            let later = lib(|| {
                let mut j = Journal::new();
                ledger_rs_lib::parse_file(&good, &mut j);
                ledger_rs_lib::parse_file(full, &mut j);
            });
            if later.is_ok() || lib(|| ledger_rs_lib::run(vec!["b".into(), "-f".into(), good.clone(), "-f".into(), full.into()])).is_ok() {
                return Err(format!("the file {:?} was read without an error after another file", name));
            }
            if lib(|| ledger_rs_lib::run(vec!["b".into(), "-f".into(), full.into()])).is_ok() {
                return Err(format!("the file {:?} was reported on without an error", name));
            }
        }
        ctx.class("missing file");
    }
    Ok(())
}
