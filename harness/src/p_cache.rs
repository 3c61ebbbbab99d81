//! A09: the stored standard library is invisible, whatever state its directory is in.
use crate::corpus::{self};
use crate::run::*;
use crate::sup::*;
use crate::util::*;
use ferlium::format::FormatWith;
use ferlium::module::{Path, ShowModuleWithOptions, Uses};
use ferlium::{Compiler, CompilerSession, ExecutionTarget};
use sha2::{Digest, Sha256};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn prop() -> Prop {
    Prop {
        id: "A09",
        level: "fault_enumeration",
        rule: "a case is either a state of the cache directory with faults (damaged files at enumerated and random places, foreign files, missing or unusable directories, held locks, limited file sizes, writers killed at random times, concurrent starts), judged by the answers of every process started on it, or a text answered by two processes, one with the standard library loaded from the cache and one that compiled it; non-trivial when all answers were compared; distinct by state or text",
        secs: (50, 840),
        cases: (700, 1 << 40),
        crash: true,
        hang: true,
        assumptions: &["processes run as one user on a local file system with working locks"],
        worker,
        floor: 200,
    }
}
/// Without addresses and the suffixes of generated names.
fn plain(t: &str) -> String {
    let b = t.as_bytes();
    let hex = |i: usize| i < b.len() && (b[i].is_ascii_digit() || (b'a'..=b'f').contains(&b[i]));
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'@' && b[i..].starts_with(b"@ 0x") { i += 4; while hex(i) { i += 1 } continue }
        if b[i] == b':' && i + 8 < b.len() && (1..9).all(|k| hex(i + k)) && !hex(i + 9) { i += 9; continue }
        if b[i] == b'#' && i + 1 < b.len() && b[i + 1].is_ascii_digit() { i += 1; while i < b.len() && b[i].is_ascii_digit() { i += 1 } continue }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8(o).unwrap()
}
/// Everything visible of one text: diagnostics, hints, and its behaviour on the three execution paths.
fn answer(ide: &mut Compiler, s: &mut Sess, src: &str) -> String {
    let mut out = String::new();
    let r = guarded(|| {
        let mut o = String::new();
        match ide.compile(src) { Some(es) => for e in es { o.push_str(&format!("{}:{}-{} {}\n", e.file, e.from, e.to, e.text)) }, None => o.push_str("accepted\n") }
        for a in ide.get_annotations() { o.push_str(&format!("@{}{}\n", a.pos, a.hint)) }
        o
    });
    match r { Ok(o) => out.push_str(&o), Err(p) => out.push_str(&format!("panic {p}\n")) }
    let r = guarded(|| match s.compile(src) {
        Err(e) => format!("rejected {e}\n"),
        Ok(o) => {
            let mut t = String::new();
            let m = s.s.expect_fresh_module(o.module_id);
            let mut names: Vec<String> = m.iter_named_functions().map(|(n, _)| n.to_string()).collect();
            names.sort();
            t.push_str(&plain(&names.join(" ")));
            if let Some(e) = o.expr { for md in MODES { let x = s.run_discard(o.module_id, e, md, limits(50_000)); t.push_str(&format!("\n{} {} {:?}", md.name(), x.res.show(), x.host_log())) } }
            t
        }
    });
    match r { Ok(o) => out.push_str(&o), Err(p) => out.push_str(&format!("panic {p}\n")) }
    out
}
fn service() -> Compiler {
    let mut s = CompilerSession::new();
    crate::host::register(&mut s);
    s.set_allow_experimental(true);
    Compiler::new_with_session_and_uses(s, Uses::new_with_std())
}
/// The standard library as a session shows it.
fn dump(ide: &Compiler) -> String {
    let s = CompilerSession::new();
    let m = s.modules();
    let id = m.id_by_path(&Path::single_str("std")).unwrap();
    let mut o = format!("{}", m.get(id).unwrap().format_with(&ShowModuleWithOptions::new(s.modules(), true, true)));
    for f in ide.list_module_fns() { o.push_str(&format!("\n{} {:?} {:?}", f.name, f.args, f.doc)) }
    o
}
pub fn probes() -> Vec<&'static str> {
    vec![
        "let mut a = [3, 1, 2]; append(a, 7); host::emits(to_string(a)); a |> iter() |> map(|x| x * 2) |> filter(|x| x > 3) |> fold(0, |s, x| s + x)",
        "let mut s = hash_set_new(); set_insert(s, \"b\"); to_string(s)",
        "struct P { x: int, y: string }\nlet p = P { x: 1, y: \"q\" };\nhost::emits(to_string(p));\np == P { x: 1, y: \"q\" }",
        "f\"{to_string([Some(1), None])}\"",
        "let z = 0;\n1 / z",
        "let x = 7;\nhost::emits(f\"{x} and more\");\nabs(-3) + rem(7, 4) * max(2, 9)",
        "fn g(x) { x + x * x }\n(g(2), g(2.5))",
        "string_to_int(\"x\") + true",
        "[1, 2, 3][7]",
        "let v = parse_json(\"[1, 2]\");\nto_string(v)",
    ]
}
/// `vh stdstart`: what a process that starts now can see of the standard library.
pub fn start() {
    log_to_stderr();
    install_panic_hook();
    let mut ide = service();
    let mut s = Sess::new();
    let d = plain(&dump(&ide));
    let mut lines: Vec<&str> = d.lines().collect();
    lines.sort();
    let mut o = lines.join("\n");
    for p in probes() { o.push_str(&answer(&mut ide, &mut s, p)) }
    if std::env::var_os("VH_DUMP").is_some() { println!("{o}") }
    println!("digest {:016x} {}", fnv(o.as_bytes()), o.len());
}
/// `vh stdserve`: answers texts from standard input.
pub fn serve() {
    install_panic_hook();
    let mut ide = service();
    let mut s = Sess::new();
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    loop {
        let mut n = [0; 4];
        if i.read_exact(&mut n).is_err() { return }
        let mut t = vec![0; u32::from_le_bytes(n) as usize];
        if i.read_exact(&mut t).is_err() { return }
        let a = answer(&mut ide, &mut s, &String::from_utf8(t).unwrap());
        let _ = o.write_all(&(a.len() as u32).to_le_bytes());
        let _ = o.write_all(a.as_bytes());
        let _ = o.flush();
        if s.cases > 300 { return }
    }
}
struct Server { child: Child, left: usize }
impl Server {
    fn new(dir: Option<&PathBuf>) -> Server {
        let mut c = command("stdserve", dir);
        Server { child: c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap(), left: 290 }
    }
    fn ask(&mut self, t: &str) -> Option<String> { self.tell(t)?; self.hear() }
    fn tell(&mut self, t: &str) -> Option<()> {
        self.left = self.left.saturating_sub(1);
        let i = self.child.stdin.as_mut().unwrap();
        i.write_all(&(t.len() as u32).to_le_bytes()).ok()?;
        i.write_all(t.as_bytes()).ok()?;
        i.flush().ok()
    }
    fn hear(&mut self) -> Option<String> {
        let o = self.child.stdout.as_mut().unwrap();
        let mut n = [0; 4];
        o.read_exact(&mut n).ok()?;
        let mut a = vec![0; u32::from_le_bytes(n) as usize];
        o.read_exact(&mut a).ok()?;
        String::from_utf8(a).ok()
    }
}
impl Drop for Server { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
fn command(what: &str, dir: Option<&PathBuf>) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg(what);
    c.env_remove("FERLIUM_STD_CACHE_DISABLE");
    match dir { Some(d) => { c.env("FERLIUM_STD_CACHE_DIR", d); } None => { c.env("FERLIUM_STD_CACHE_DISABLE", "1"); } }
    c
}
/// The digest a started process prints.
fn started(child: Child) -> Result<String, String> {
    let o = child.wait_with_output().map_err(|e| e.to_string())?;
    let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
    if !o.status.success() { return Err(format!("{} {}", o.status, clip(&String::from_utf8_lossy(&o.stderr), 300))) }
    Ok(t)
}
fn go(dir: Option<&PathBuf>) -> Child { command("stdstart", dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap() }
/// Is this a complete cache file (its checksum fits)?
fn complete(b: &[u8]) -> bool { b.len() > 40 && Sha256::digest(&b[40..])[..] == b[8..40] }
fn resum(b: &mut [u8]) { let d = Sha256::digest(&b[40..]); b[8..40].copy_from_slice(&d) }

struct Env { root: PathBuf, name: String, good: Vec<u8>, want: String }
impl Env {
    fn new(c: &mut Ctx) -> Option<Env> {
        let root = std::env::temp_dir().join(format!("vh-a09-{}-{}", std::process::id(), c.shard));
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).ok()?;
        let warm = root.join("warm");
        let want = match started(go(None)) { Ok(t) => t, Err(e) => { c.violation("start without a cache", &format!("a process without a cache does not start: {e}")); return None } };
        let cold = started(go(Some(&warm)));
        let file = std::fs::read_dir(&warm).ok().and_then(|d| d.flatten().map(|e| e.path()).find(|p| p.extension().is_some_and(|x| x == "bin")));
        if cold.as_ref() != Ok(&want) { c.violation("cold start", &format!("the first start on an absent directory answers {cold:?}, without a cache {want:?}")); return None }
        let Some(file) = file else { c.violation("not stored", "the first start on an absent directory leaves nothing for the next"); return None };
        let good = std::fs::read(&file).ok()?;
        if !complete(&good) { c.violation("incomplete", "the file stored by the first start is not complete"); return None }
        Some(Env { root, name: file.file_name()?.to_string_lossy().to_string(), good, want })
    }
}
impl Drop for Env { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.root); } }

fn worker(c: &mut Ctx) {
    let Some(env) = Env::new(c) else { c.stop = true; return };
    let ok: Vec<_> = corpus::split(corpus::OK);
    let rej: Vec<_> = corpus::split(corpus::REJECT);
    let all: Vec<_> = ok.iter().chain(&rej).copied().collect();
    let warm = env.root.join("warm");
    let (mut u, mut w) = (Server::new(None), Server::new(Some(&warm)));
    while let Some(i) = c.take() {
        let mut r = c.rng(i);
        c.eval();
        if i % 6 == 0 { fault(c, &env, &mut r, i / 6); continue }
        let src = if i % 3 == 2 {
            match r.below(5) { 0 => crate::p_serde::generate(&mut r).src, 1 => crate::p_str::generate(&mut r).src, 2 => crate::p_value::generate(&mut r).src, 3 => crate::p_num::generate(&mut r).src, _ => crate::p_coll::generate(&mut r).src }
        } else if i % 6 == 1 { (*r.pick(&all)).to_string() } else { let n = 1 + r.below(4); let from = if r.pct(70) { &ok } else { &all }; corpus::mutate(&mut r, from, n) };
        c.current(&src);
        if u.left == 0 { u = Server::new(None); w = Server::new(Some(&warm)) }
        let (a, b) = (u.tell(&src), w.tell(&src));
        let (a, b) = (a.and_then(|_| u.hear()), b.and_then(|_| w.hear()));
        match (a, b) {
            (Some(a), Some(b)) => {
                if a != b {
                    // Nothing but the text may matter: ask processes without a history.
                    let (a2, b2) = (Server::new(None).ask(&src), Server::new(Some(&warm)).ask(&src));
                    if a2 != b2 { c.violation_on("answer", &src, &format!("compiled standard library:\n{}\nloaded from the cache:\n{}\ntext:\n{src}", clip(&a2.unwrap_or_default(), 1500), clip(&b2.unwrap_or_default(), 1500))) }
                    else { c.count("answers that depend on history") }
                } else { c.count(if a.contains("rejected") { "rejected texts compared" } else { "accepted texts compared" }); c.nontrivial(fnv(src.as_bytes())); c.sample(|| src.clone()) }
            }
            (None, None) => { c.count("texts that end both processes"); u = Server::new(None); w = Server::new(Some(&warm)) }
            (a, _) => {
                let (a2, b2) = (Server::new(None).ask(&src), Server::new(Some(&warm)).ask(&src));
                if a2.is_some() != b2.is_some() { c.violation_on("answer", &src, &format!("only the process {} the cache survives:\n{src}", if a.is_some() { "without" } else { "with" })) }
                u = Server::new(None); w = Server::new(Some(&warm));
            }
        }
    }
}
/// One state of the directory, and what starts on it.
fn fault(c: &mut Ctx, env: &Env, r: &mut Rng, k: u64) {
    let base = env.root.join(format!("s{k}"));
    let mut dir = base.join("d");
    let _ = std::fs::create_dir_all(&base);
    let n = env.good.len();
    let mut said;
    // Is the directory one where the file can be stored?
    let mut usable = true;
    let mut fresh = false;
    let mut marker = false;
    let mut hold = None;
    let mut limit = None;
    let file = |dir: &PathBuf| dir.join(&env.name);
    let put = |dir: &PathBuf, b: &[u8]| { let _ = std::fs::create_dir_all(dir); std::fs::write(file(dir), b).unwrap() };
    match k % 16 {
        0 => { said = "absent directory".to_string(); if r.pct(50) { dir = dir.join("deeper/still"); said.push_str(", nested") } }
        1 => { said = "empty directory".into(); std::fs::create_dir_all(&dir).unwrap() }
        2 | 3 => { let at = match r.below(6) { 0 => 0, 1 => 8, 2 => 40, 3 => r.below(64), 4 => n - 1 - r.below(64), _ => r.below(n) }; said = format!("file cut after {at} of {n} bytes"); put(&dir, &env.good[..at]) }
        4 | 5 | 6 => { let at = match r.below(4) { 0 => r.below(8), 1 => 8 + r.below(32), 2 => 40 + r.below(300), _ => r.below(n) }; let bit = r.below(8); said = format!("bit {bit} of byte {at} flipped"); let mut b = env.good.clone(); b[at] ^= 1 << bit; put(&dir, &b) }
        7 => { let m = 1 + r.below(3000); said = format!("{m} bytes added"); let mut b = env.good.clone(); for _ in 0..m { b.push(r.below(256) as u8) } put(&dir, &b) }
        8 => { let at = 40 + r.below(140); said = format!("the header of another build (byte {at})"); let mut b = env.good.clone(); b[at] = if b[at].is_ascii_digit() { b'0' + (b[at] - b'0' + 1 + r.below(9) as u8) % 10 } else if b[at].is_ascii_lowercase() { if b[at] == b'a' { b'b' } else { b'a' } } else { b[at] ^ 1 }; resum(&mut b); put(&dir, &b) }
        9 => { let a = r.below(n); let l = 1 + r.below(5000); said = format!("{l} bytes at {a} zeroed"); let mut b = env.good.clone(); for x in b.iter_mut().skip(a).take(l) { *x = 0 } put(&dir, &b) }
        10 => { said = "a directory where the file should be".into(); std::fs::create_dir_all(file(&dir).join("x")).unwrap(); usable = false }
        11 => { said = "the directory's place is taken by a file".into(); std::fs::write(&dir, b"x").unwrap(); if r.pct(50) { dir = dir.join("below") } usable = false }
        12 => { said = "good file".into(); put(&dir, &env.good); fresh = true }
        13 => { let kb = 1 + r.below(480); said = format!("files limited to {kb} KiB"); std::fs::create_dir_all(&dir).unwrap(); limit = Some(kb); usable = kb * 1024 > n + 4096 }
        14 => { said = "lock held by another process for a while".into(); std::fs::create_dir_all(&dir).unwrap(); let f = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(file(&dir).with_extension("lock")).unwrap(); f.lock().unwrap(); let good = r.pct(50); let ms = 50 + r.below(900) as u64; hold = Some((f, ms, good)) ; said.push_str(&format!(" ({ms} ms, {})", if good { "which then stores the file" } else { "which dies" })) }
        _ => { said = "a note that storing is impossible".into(); std::fs::create_dir_all(&dir).unwrap(); std::fs::write(file(&dir).with_extension("invalid"), b"x").unwrap(); marker = true; usable = false }
    }
    if usable && r.pct(20) { said.push_str(", left-over temporary files"); let _ = std::fs::create_dir_all(&dir); for j in 0..3 { let _ = std::fs::write(file(&dir).with_extension(format!("tmp-{}-{j}", 100 + r.below(900))), &env.good[..r.below(n)]); } }
    let procs = 1 + if r.pct(55) { r.below(5) } else { 0 };
    let kills = procs > 1 && r.pct(50) || r.pct(15);
    said.push_str(&format!("; {procs} processes"));
    c.current(&said);
    let init = std::fs::read(file(&dir)).ok();
    let ino0 = inode(&file(&dir));
    let began = Instant::now();
    let mut live: Vec<(Option<Child>, u64, Option<u64>)> = vec![];
    for _ in 0..procs { let d = if r.pct(50) { 0 } else { r.below(400) as u64 }; let k = if kills && r.pct(60) { Some(d + r.below(1500) as u64) } else { None }; live.push((None, d, k)) }
    if kills { said.push_str(&format!(", killed at {:?} ms", live.iter().filter_map(|l| l.2).collect::<Vec<_>>())) }
    let mut spawned = vec![false; procs];
    let mut killed = 0;
    let mut seen = (ino0, init.clone().map(|b| fnv(&b)));
    let mut replaced = 0;
    // Watch the file while the processes run.
    loop {
        let t = began.elapsed().as_millis() as u64;
        if let Some((_, ms, good)) = &hold { if t >= *ms { if *good { let tmp = dir.join("other"); std::fs::write(&tmp, &env.good).unwrap(); std::fs::rename(&tmp, file(&dir)).unwrap(); fresh = true; } hold = None } }
        let mut busy = false;
        for (j, l) in live.iter_mut().enumerate() {
            if !spawned[j] { if t >= l.1 { spawned[j] = true; l.0 = Some(match limit { None => go(Some(&dir)), Some(kb) => { let mut q = Command::new("bash"); q.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {kb}; exec \"$0\" stdstart")).arg(std::env::current_exe().unwrap()).env_remove("FERLIUM_STD_CACHE_DISABLE").env("FERLIUM_STD_CACHE_DIR", &dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap() } }) } busy = true; continue }
            let Some(ch) = &mut l.0 else { continue };
            if let (Some(k), Ok(None)) = (l.2, ch.try_wait()) { if t >= k { let _ = ch.kill(); let _ = ch.wait(); l.0 = None; killed += 1; continue } }
            if let Ok(None) = ch.try_wait() { busy = true }
        }
        if usable || fresh || marker {
            let now = inode(&file(&dir));
            if now != seen.0 && now.is_some() { if let Ok(b) = std::fs::read(file(&dir)) {
                let h = Some(fnv(&b));
                if h != seen.1 {
                    c.count("published files observed");
                    if !complete(&b) && inode(&file(&dir)) == now { c.violation(&format!("fault {}", k % 16), &format!("an incomplete file of {} bytes stands under the final name: {said}", b.len())); return cleanup(&base, live) }
                    if seen.1.is_some() && seen.1 != init.as_ref().map(|b| fnv(b)) { replaced += 1 }
                    seen = (now, h);
                }
            } }
        }
        if !busy { break }
        if began.elapsed() > Duration::from_secs(150) { c.violation(&format!("fault {}", k % 16), &format!("processes do not finish starting within 150 s: {said}")); return cleanup(&base, live) }
        std::thread::sleep(Duration::from_millis(2));
    }
    let _ = replaced;
    c.add("processes started on a faulty directory", procs as u64);
    c.add("processes killed", killed);
    for (ch, _, _) in live.iter_mut() {
        let Some(ch) = ch.take() else { continue };
        let got = started(ch);
        if got.as_ref() != Ok(&env.want) { c.violation(&format!("fault {}", k % 16), &format!("a start answers {got:?} instead of {:?}: {said}", env.want)); return cleanup(&base, vec![]) }
    }
    // Whatever happened: the next start works, and leaves a file that the one after uses as it is.
    let next = started(go(Some(&dir)));
    if next.as_ref() != Ok(&env.want) { c.violation(&format!("fault {}", k % 16), &format!("the next start answers {next:?} instead of {:?}: {said}", env.want)); return cleanup(&base, vec![]) }
    if usable || limit.is_some() || fresh {
        let b = std::fs::read(file(&dir)).unwrap_or_default();
        if !complete(&b) { c.violation(&format!("fault {}", k % 16), &format!("after another start the stored file is not complete ({} bytes): {said}", b.len())); return cleanup(&base, vec![]) }
        if !fresh && Some(&b) == init.as_ref() { c.violation(&format!("fault {}", k % 16), &format!("a file that is not this build's stays in place: {said}")); return cleanup(&base, vec![]) }
        if k % 16 == 12 && (inode(&file(&dir)) != ino0 || b != env.good) { c.violation(&format!("fault {}", k % 16), &format!("a good file was replaced: {said}")); return cleanup(&base, vec![]) }
        let i = inode(&file(&dir));
        let third = started(go(Some(&dir)));
        if third.as_ref() != Ok(&env.want) || inode(&file(&dir)) != i { c.violation(&format!("fault {}", k % 16), &format!("the start after answers {third:?}, or stores the file again: {said}")); return cleanup(&base, vec![]) }
    }
    c.count("states of the directory judged");
    c.nontrivial(fnv(said.as_bytes()));
    c.sample(|| said.clone());
    cleanup(&base, vec![])
}
fn inode(p: &PathBuf) -> Option<(u64, i64, i64)> { use std::os::unix::fs::MetadataExt; std::fs::metadata(p).ok().map(|m| (m.ino(), m.mtime(), m.mtime_nsec())) }
fn cleanup(base: &PathBuf, live: Vec<(Option<Child>, u64, Option<u64>)>) { for (c, _, _) in live { if let Some(mut c) = c { let _ = c.kill(); let _ = c.wait(); } } let _ = std::fs::remove_dir_all(base); }
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { if r.level() <= log::Level::Warn { eprintln!("{}: {}", r.level(), r.args()) } }
    fn flush(&self) {}
}
pub fn log_to_stderr() { let _ = log::set_logger(&Log); log::set_max_level(log::LevelFilter::Warn); }
