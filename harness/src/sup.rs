//! Supervisor and worker protocol: every property is explored by several worker processes; each
//! writes counters, distinct-case hashes, samples and violations to its own report file.
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::PathBuf;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    /// Seconds of exploration: quick, thorough.
    pub secs: (u64, u64),
    /// Upper bound on the number of cases: quick, thorough.
    pub cases: (u64, u64),
    /// Is the death of a worker (signal) in the middle of a case a violation?
    pub crash: bool,
    /// Is a case that does not return within the watchdog's patience a violation?
    pub hang: bool,
    pub assumptions: &'static [&'static str],
    pub worker: fn(&mut Ctx),
    /// Lower bound of non-trivial cases below which a run is inconclusive.
    pub floor: u64,
}

/// Worker context.
pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub tier: Tier,
    pub shard: u64,
    pub of: u64,
    pub next: u64,
    pub max: u64,
    pub deadline: Instant,
    pub only: Option<u64>,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
    pub viols: Vec<(String, String)>,
    pub out: PathBuf,
    pub stop: bool,
    last_flush: Instant,
    pub cur: u64,
    pub verbose: bool,
    known: Known,
}
/// What /verif/known_findings.txt lists for one property: exact inputs, and call sites.
#[derive(Default)]
pub struct Known { inputs: HashSet<u64>, sites: Vec<String>, shown: Vec<String> }
impl Known {
    pub fn load(id: &str) -> Known {
        let root = PathBuf::from(std::env::var("VERIF").unwrap_or("/verif".into()));
        let mut k = Known::default();
        for l in std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines() {
            let Some(r) = l.strip_prefix(&format!("known: property={id} ")) else { continue };
            let Some((key, d)) = r.split_once(" :: ") else { continue };
            if let Some(h) = key.strip_prefix("input=") { if let Ok(h) = u64::from_str_radix(h, 16) { k.inputs.insert(h); } }
            else if let Some(h) = key.strip_prefix("site=") { k.sites.push(h.into()); k.shown.push(d.into()); }
        }
        k
    }
}
impl Ctx {
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    /// The next case index of this shard, or None when the budget is used up.
    pub fn take(&mut self) -> Option<u64> {
        if self.stop { return None }
        if let Some(i) = self.only {
            self.only = None;
            self.stop = true;
            self.cur = i;
            return Some(i)
        }
        if self.next >= self.max || Instant::now() >= self.deadline { return None }
        if self.last_flush.elapsed() > Duration::from_secs(3) { self.flush(false); }
        let i = self.next;
        self.next += self.of;
        self.cur = i;
        Some(i)
    }
    pub fn rng(&self, i: u64) -> Rng { Rng::new(mix(mix(self.seed, fnv(self.id.as_bytes())), i)) }
    pub fn count(&mut self, k: &str) { *self.counters.entry(k.to_string()).or_insert(0) += 1 }
    pub fn add(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_insert(0) += n }
    pub fn eval(&mut self) { self.count("evaluations") }
    pub fn nontrivial(&mut self, h: u64) { self.distinct.insert(h); }
    pub fn seen(&mut self, set: &str, h: u64) {
        let s = self.sets.entry(set.to_string()).or_default();
        if s.len() < 200_000 { s.insert(h); }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 { let t = s(); self.samples.push(clip(&t, 1500)); }
    }
    /// Tell the watchdog what is being executed.
    pub fn current(&self, text: &str) {
        let p = self.out.join(format!("cur.{}", self.shard));
        let _ = std::fs::write(p, format!("case {}\n{}", self.cur, text));
    }
    /// Is this a listed finding? The default exploration (quick, seed 1) is a fixed set of inputs,
    /// so there a finding is recognised by its exact input; any other exploration recognises the
    /// listed call sites.
    pub fn is_known(&mut self, sig: &str, input: &str) -> bool {
        if std::env::var_os("VH_TRIAGE").is_some() { return false }
        // Development aid: list every failing input (see bin/list_findings.sh); never used by a check.
        if let Some(p) = std::env::var_os("VH_LIST") {
            if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
                let _ = f.write_all(format!("{:016x}\t{sig}\t{}\n", fnv(input.as_bytes()), self.cur).as_bytes());
            }
            return true
        }
        let fixed = self.quick() && self.seed == 1;
        let k = self.known.inputs.contains(&fnv(input.as_bytes())) || ((!fixed || sig.starts_with("fixture:")) && self.known.sites.iter().any(|s| s == sig));
        if k { self.count("known_finding_hits"); }
        k
    }
    /// A violation shown by one textual input.
    pub fn violation_on(&mut self, sig: &str, input: &str, text: &str) {
        if self.is_known(sig, input) { return }
        self.violation(sig, &format!("input={:016x}\n{text}", fnv(input.as_bytes())));
    }
    pub fn violation(&mut self, sig: &str, text: &str) {
        if self.verbose { println!("--- [{sig}]\n{text}\n---"); }
        let triage = std::env::var_os("VH_TRIAGE").is_some();
        if let Some(k) = self.viols.iter().position(|v| v.0 == sig) {
            self.count("repeated_violations");
            if !(triage && text.len() + 200 < self.viols[k].1.len()) { return }
            self.viols.remove(k);
        }
        let t = format!("property {}\nseed {}\ncase {}\nreplay: .target/debug/vh replay {} {} {}\nsignature {sig}\n\n{text}\n", self.id, self.seed, self.cur, self.id, self.seed, self.cur);
        self.viols.push((sig.to_string(), t));
        self.flush(false);
        if self.viols.len() >= 6 && !triage { self.stop = true }
    }
    pub fn flush(&mut self, done: bool) {
        self.last_flush = Instant::now();
        let mut s = String::new();
        for (k, v) in &self.counters { s.push_str(&format!("C {k} {v}\n")); }
        for d in &self.distinct { s.push_str(&format!("D {d:x}\n")); }
        for (k, set) in &self.sets { for d in set { s.push_str(&format!("X {k} {d:x}\n")); } }
        for x in &self.samples { s.push_str(&format!("S {}\n", json_str(x))); }
        for (sig, t) in &self.viols { s.push_str(&format!("V {}\t{}\n", esc(sig), esc(t))); }
        s.push_str(&format!("N {}\n", self.next));
        if done { s.push_str("DONE\n"); }
        let p = self.out.join(format!("w{}.{}", self.shard, std::process::id()));
        let tmp = p.with_extension("tmp");
        if std::fs::write(&tmp, s).is_ok() { let _ = std::fs::rename(tmp, p); }
    }
}
fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t") }
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some(c) => o.push(c), None => {} } } else { o.push(c) }
    }
    o
}

pub fn worker_main(prop: &Prop, args: &[String]) {
    // worker ID seed tier shard of start max secs out [only]
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    let mut ctx = Ctx {
        id: args[0].clone(),
        seed: n(1),
        tier: if args[2] == "quick" { Tier::Quick } else { Tier::Thorough },
        shard: n(3),
        of: n(4),
        next: n(5),
        max: n(6),
        deadline: Instant::now() + Duration::from_millis(n(7)),
        out: PathBuf::from(&args[8]),
        only: args.get(9).map(|s| s.parse().unwrap()),
        verbose: args.len() > 9,
        counters: BTreeMap::new(),
        distinct: HashSet::new(),
        sets: BTreeMap::new(),
        samples: vec![],
        viols: vec![],
        stop: false,
        last_flush: Instant::now(),
        cur: 0,
        known: Known::load(&args[0]),
    };
    crate::run::install_panic_hook();
    let f = prop.worker;
    std::thread::scope(|s| {
        let r = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, || f(&mut ctx)).unwrap().join();
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("worker thread panicked: {m}");
        }
    });
    let ok = ctx.stop || ctx.next >= ctx.max || Instant::now() >= ctx.deadline;
    ctx.flush(ok);
    if ctx.verbose {
        println!("counters {:?}", ctx.counters);
        println!("{}", if ctx.viols.is_empty() { "no violation" } else { "violations found" });
    }
    if !ok { std::process::exit(7) }
}

pub fn supervise(prop: &Prop, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let root = PathBuf::from(std::env::var("VERIF").unwrap_or("/verif".into()));
    let out = root.join("out").join(prop.id);
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).unwrap();
    let (mut secs, cases) = if tier == Tier::Quick { (prop.secs.0, prop.cases.0) } else { (prop.secs.1, prop.cases.1) };
    if let Ok(s) = std::env::var("VH_SECS") { if let Ok(s) = s.parse() { secs = s } }
    let of = std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let deadline = t0 + Duration::from_secs(secs);
    let exe = std::env::current_exe().unwrap();
    struct W { child: Option<std::process::Child>, shard: u64, start: u64, last_cur: String, since: Instant, restarts: u32 }
    let spawn = |shard: u64, start: u64| -> std::process::Child {
        let left = deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        std::process::Command::new(&exe)
            .args(["worker", prop.id, &seed.to_string(), tname, &shard.to_string(), &of.to_string(), &start.to_string(), &cases.to_string(), &left.to_string(), out.to_str().unwrap()])
            .stdout(std::process::Stdio::null())
            .stderr(std::fs::OpenOptions::new().create(true).append(true).open(out.join(format!("err.{shard}"))).unwrap())
            .spawn().unwrap()
    };
    let mut ws: Vec<W> = (0..of).map(|s| W { child: Some(spawn(s, s)), shard: s, start: s, last_cur: String::new(), since: Instant::now(), restarts: 0 }).collect();
    let mut extra: Vec<(String, String)> = vec![];
    let mut notes: Vec<String> = vec![];
    let patience = Duration::from_secs(match (prop.hang, tier) { (false, Tier::Quick) => 15, (true, Tier::Quick) | (false, _) => 40, _ => 120 });
    loop {
        let mut alive = false;
        for w in ws.iter_mut() {
            let Some(c) = w.child.as_mut() else { continue };
            match c.try_wait() {
                Ok(Some(st)) => {
                    let pid = c.id();
                    w.child = None;
                    if st.success() { continue }
                    use std::os::unix::process::ExitStatusExt;
                    let rep = std::fs::read_to_string(out.join(format!("w{}.{}", w.shard, pid))).unwrap_or_default();
                    let mut next = rep.lines().rev().find_map(|l| l.strip_prefix("N ").and_then(|x| x.parse::<u64>().ok())).unwrap_or(w.start);
                    let cur = std::fs::read_to_string(out.join(format!("cur.{}", w.shard))).unwrap_or_default();
                    let cur_i = cur.lines().next().and_then(|l| l.strip_prefix("case ")).and_then(|x| x.trim().parse::<u64>().ok());
                    if let Some(sig) = st.signal() {
                        if sig == 9 || sig == 15 {
                            notes.push(format!("worker {} was killed by signal {sig} (inconclusive)", w.shard));
                        } else if prop.crash {
                            let err = std::fs::read_to_string(out.join(format!("err.{}", w.shard))).unwrap_or_default();
                            let tail: String = err.lines().rev().take(5).collect::<Vec<_>>().join(" / ");
                            extra.push((format!("crash-signal-{sig}"), format!("property {}\nseed {seed}\nreplay: .target/debug/vh replay {} {seed} {}\nthe process died with signal {sig} while running\n{cur}\n{tail}\n", prop.id, prop.id, cur_i.unwrap_or(0))));
                        } else {
                            notes.push(format!("worker {} died with signal {sig} (inconclusive)", w.shard));
                        }
                        if let Some(i) = cur_i { next = next.max(i + of) }
                    } else if st.code() != Some(7) {
                        notes.push(format!("worker {} exited with {:?}", w.shard, st.code()));
                        if let Some(i) = cur_i { next = next.max(i + of) }
                    }
                    if Instant::now() < deadline && next < cases && w.restarts < 400 {
                        w.restarts += 1;
                        w.start = next;
                        w.child = Some(spawn(w.shard, next));
                        w.since = Instant::now();
                        alive = true;
                    }
                }
                Ok(None) => {
                    alive = true;
                    let cur = std::fs::read_to_string(out.join(format!("cur.{}", w.shard))).unwrap_or_default();
                    if cur != w.last_cur { w.last_cur = cur; w.since = Instant::now(); }
                    if w.since.elapsed() > patience {
                        let _ = c.kill();
                        let _ = c.wait();
                        w.child = None;
                        if prop.hang && w.last_cur.lines().nth(1).is_some_and(|l| l == "running") {
                            extra.push(("hang".into(), format!("property {}\nseed {seed}\nno answer within {patience:?} while running\n{}\n", prop.id, w.last_cur)));
                        } else {
                            notes.push(format!("worker {} was stuck and was ended (inconclusive): {}", w.shard, clip(&w.last_cur, 200)));
                        }
                        let i = w.last_cur.lines().next().and_then(|l| l.strip_prefix("case ")).and_then(|x| x.trim().parse::<u64>().ok()).unwrap_or(0);
                        w.start = (i + of).max(w.start + of);
                        if Instant::now() < deadline { w.child = Some(spawn(w.shard, w.start)); w.since = Instant::now(); }
                    }
                }
                Err(_) => { w.child = None }
            }
        }
        if !alive { break }
        std::thread::sleep(Duration::from_millis(100));
    }
    // Merge.
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut sets: BTreeMap<String, HashSet<u64>> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut viols: Vec<(String, String)> = extra;
    let mut unfinished = 0;
    for e in std::fs::read_dir(&out).unwrap().flatten() {
        let name = e.file_name().to_string_lossy().to_string();
        if !name.starts_with('w') || name.ends_with(".tmp") { continue }
        let t = std::fs::read_to_string(e.path()).unwrap_or_default();
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("C ") {
                let (k, v) = r.rsplit_once(' ').unwrap();
                *counters.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
            } else if let Some(r) = l.strip_prefix("D ") {
                distinct.insert(u64::from_str_radix(r, 16).unwrap_or(0));
            } else if let Some(r) = l.strip_prefix("X ") {
                let (k, v) = r.rsplit_once(' ').unwrap();
                sets.entry(k.into()).or_default().insert(u64::from_str_radix(v, 16).unwrap_or(0));
            } else if let Some(r) = l.strip_prefix("S ") {
                if samples.len() < 6 { samples.push(r.to_string()) }
            } else if let Some(r) = l.strip_prefix("V ") {
                if let Some((s, t)) = r.split_once('\t') { viols.push((unesc(s), unesc(t))) }
            }
        }
        if !t.ends_with("DONE\n") { unfinished += 1 }
        let _ = std::fs::remove_file(e.path());
    }
    for d in &Known::load(prop.id).shown { println!("KNOWN-FINDING: property={} {d}", prop.id); }
    let mut fresh: BTreeMap<String, String> = BTreeMap::new();
    for (s, t) in viols {
        let e = fresh.entry(s).or_insert(t.clone());
        if t.len() < e.len() { *e = t }
    }
    let evals = counters.get("evaluations").copied().unwrap_or(0);
    let mut code = 0;
    for (k, (s, t)) in fresh.iter().enumerate() {
        let p = out.join(format!("violation-{k}.txt"));
        let mut f = std::fs::File::create(&p).unwrap();
        let _ = f.write_all(t.as_bytes());
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        println!("  {}: {}", s, clip(&t.replace('\n', " | "), 700));
        code = 1;
    }
    for n in &notes { println!("note: {}", clip(&n.replace('\n', " | "), 160)); }
    let mut j = String::from("{\n");
    j.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n", json_str(prop.id), json_str(tname), json_str(prop.level)));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", distinct.len(), json_str(prop.rule)));
    for (k, v) in &counters { if k != "evaluations" { j.push_str(&format!("  {}: {v},\n", json_str(k))); } }
    for (k, v) in &sets { j.push_str(&format!("  {}: {},\n", json_str(&format!("distinct_{k}")), v.len())); }
    j.push_str(&format!("  \"workers\": {of},\n  \"unfinished_workers\": {unfinished},\n"));
    j.push_str(&format!("  \"notes\": [{}],\n", notes.iter().take(20).map(|n| json_str(&clip(n, 300))).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.join(",\n   ")));
    j.push_str(&format!(" \"assumptions\": [{}],\n", prop.assumptions.iter().map(|n| json_str(n)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(" \"wall_s\": {:.1},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), fresh.len()));
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(ev.join(format!("{}.json", prop.id)), j).unwrap();
    println!("{} {tname} seed {seed}: {evals} evaluations, {} distinct non-trivial, {} violation(s), {:.1}s", prop.id, distinct.len(), fresh.len(), t0.elapsed().as_secs_f64());
    if code == 0 && (distinct.len() as u64) < prop.floor {
        println!("inconclusive: only {} non-trivial cases observed, at least {} needed", distinct.len(), prop.floor);
        return 3;
    }
    code
}
impl Ctx {
    /// A panic may leave the compiler's global state unusable: forget the session; if no new one can be made, end this worker so that the supervisor starts another.
    pub fn stop_session(&mut self, sess: &mut crate::run::Sess) {
        self.count("sessions_replaced");
        match crate::run::guarded(crate::run::Sess::new) {
            Ok(s) => std::mem::forget(std::mem::replace(sess, s)),
            Err(_) => { self.flush(false); std::process::exit(7) }
        }
    }
}
/// A panic's identity: file and message without numbers.
pub fn sig_of_panic(p: &str) -> String {
    let p = p.lines().next().unwrap_or("");
    let p = p.rsplit("/src/").next().unwrap_or(p);
    let mut s = String::new();
    let mut last = ' ';
    for ch in p.chars() {
        let ch = if ch.is_ascii_digit() { '#' } else { ch };
        if ch == '#' && last == '#' { continue }
        s.push(ch);
        last = ch;
    }
    clip(&s, 160)
}
