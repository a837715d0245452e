//! Exploration: exhaustive enumeration of case spaces and breadth-first search
//! of state spaces on all cores, violation reports with replayable traces,
//! evidence files and the known-findings list.
use crate::vm::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub struct Viol { pub key: String, pub msg: String, pub trace: Vec<String>, pub last: Option<(World, Vec<Ix>)> }

pub struct Ck {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    t0: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    counts: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<BTreeMap<String, String>>,
    viols: Mutex<Vec<Viol>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeSet<String>>,
    pub assumptions: Mutex<Vec<String>>,
    stop: AtomicBool,
    seen: Vec<Mutex<HashSet<u128>>>,
}

// ---------------------------------------------------------------- watchdog
const SLOTS: usize = 64;
static BUSY: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static LABELS: [Mutex<String>; SLOTS] = [const { Mutex::new(String::new()) }; SLOTS];
thread_local! { static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(SLOTS - 1) }; }
fn now() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() }
pub fn busy(label: &dyn Fn() -> String) {
    let i = ME.with(|m| m.get());
    BUSY[i].store(now(), Relaxed);
    *LABELS[i].lock().unwrap() = label();
}
fn idle() { BUSY[ME.with(|m| m.get())].store(0, Relaxed); }

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hx(d: &[u8]) -> String { d.iter().map(|b| format!("{b:02x}")).collect() }

pub fn workers() -> usize { if let Ok(n) = std::env::var("MC_WORKERS") { return n.parse().unwrap(); } std::thread::available_parallelism().map_or(8, |n| n.get()).min(16) }

impl Ck {
    pub fn new(id: &'static str) -> Ck {
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let root = root();
        let mut known = vec![];
        for l in std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS.txt")).unwrap_or_default().lines() {
            // known: property=P02 key=<key> <what fails>
            let Some(r) = l.strip_prefix("known: property=") else { continue };
            let mut it = r.splitn(3, ' ');
            let (p, k, what) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == id { if let Some(k) = k.strip_prefix("key=") { known.push((k.to_string(), what.to_string())); } }
        }
        let ck = Ck {
            id, thorough, seed, t0: Instant::now(), states: 0.into(), transitions: 0.into(), traces: 0.into(),
            counts: Default::default(), samples: Default::default(), viols: Default::default(), known,
            known_hit: Default::default(), assumptions: Default::default(), stop: false.into(),
            seen: (0..64).map(|_| Default::default()).collect(),
        };
        let id = id.to_string();
        let hang = std::env::var("MC_HANG").map_or(40, |x| x.parse().unwrap());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for i in 0..SLOTS {
                let b = BUSY[i].load(Relaxed);
                if b != 0 && now() > b + hang {
                    let l = LABELS[i].try_lock().map(|l| l.clone()).unwrap_or_default();
                    let p = write_replay(&id, 0, &format!("does not terminate: {l}\n"));
                    println!("non-terminating case: {l}");
                    println!("VIOLATION property={id} replay={p}");
                    std::process::exit(1);
                }
            }
        });
        ck
    }
    pub fn stopped(&self) -> bool { self.stop.load(Relaxed) }
    pub fn count(&self, k: &str, n: u64) { *self.counts.lock().unwrap().entry(k.to_string()).or_default() += n; }
    pub fn sample(&self, k: &str, s: impl Fn() -> String) {
        let mut m = self.samples.lock().unwrap();
        if !m.contains_key(k) { m.insert(k.to_string(), s()); }
    }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.to_string()); }
    pub fn state(&self, n: u64) { self.states.fetch_add(n, Relaxed); }
    pub fn trans(&self, n: u64) { self.transitions.fetch_add(n, Relaxed); }
    pub fn trace(&self, n: u64) { self.traces.fetch_add(n, Relaxed); }
    /// Executes a transaction; the resulting state is counted if it is new.
    pub fn exec(&self, w: &World, ixs: &[Ix]) -> Result<Done, TxErr> {
        let r = exec(w, ixs);
        if let Ok(d) = &r { self.see(&d.world); }
        r
    }
    pub fn see<T: Hash>(&self, t: &T) {
        let h = hash128(t);
        if self.seen[(h as usize) & 63].lock().unwrap().insert(h) { self.states.fetch_add(1, Relaxed); }
    }
    /// `key` identifies the violation for the known-findings list.
    pub fn fail(&self, key: &str, msg: String, trace: Vec<String>, last: Option<(World, Vec<Ix>)>) {
        if let Some((k, _)) = self.known.iter().find(|(k, _)| k == key) {
            self.known_hit.lock().unwrap().insert(k.clone());
            return;
        }
        let mut v = self.viols.lock().unwrap();
        if v.len() < 20000 { v.push(Viol { key: key.into(), msg, trace, last }); }
        if v.len() >= std::env::var("MC_MAX").map_or(25, |x| x.parse().unwrap()) { self.stop.store(true, Relaxed); }
    }
    pub fn ensure(&self, ok: bool, key: &str, msg: impl FnOnce() -> String) {
        if !ok { self.fail(key, msg(), vec![], None) }
    }

    /// Runs `f` on every case, on all cores.
    pub fn each<T: Sync>(&self, name: &str, cases: &[T], f: impl Fn(&Ck, &T) + Sync) where T: std::fmt::Debug {
        let next = AtomicUsize::new(0);
        let (tx, ok) = (AtomicU64::new(0), AtomicU64::new(0));
        let why = Mutex::new(std::collections::BTreeMap::<String, u64>::new());
        std::thread::scope(|s| {
            for wk in 0..workers() {
                let (next, f, tx, ok, why) = (&next, &f, &tx, &ok, &why);
                s.spawn(move || {
                    ME.with(|m| m.set(wk));
                    loop {
                        let a = next.fetch_add(8, Relaxed);
                        if a >= cases.len() || self.stopped() { break; }
                        for c in &cases[a..(a + 8).min(cases.len())] {
                            busy(&|| trunc(&format!("{name} {c:?}"), 2000));
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self, c)));
                            if let Err(p) = r {
                                let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                self.fail(&format!("{name}-panic"), format!("{name}: panic: {s}"), vec![format!("case {c:?}")], None);
                            }
                        }
                    }
                    idle();
                    let n = TX_COUNT.with(|c| c.replace(0));
                    self.trans(n);
                    tx.fetch_add(n, Relaxed);
                    ok.fetch_add(TX_OK.with(|c| c.replace(0)), Relaxed);
                    TX_WHY.with(|c| for (k, v) in c.take() { *why.lock().unwrap().entry(k).or_insert(0) += v; });
                });
            }
        });
        self.trace(cases.len() as u64);
        self.count(&format!("cases.{name}"), cases.len() as u64);
        let ok = ok.load(Relaxed);
        self.count(&format!("accepted.{name}"), ok);
        if std::env::var("MC_WHY").is_ok() { eprintln!("WHY {} {name}: {} cases, {} transactions, {ok} accepted, {:?}", self.id, cases.len(), tx.load(Relaxed), why.lock().unwrap()); }
        if std::env::var("MC_T").is_ok() { eprintln!("{} {name} {} cases, {:.1}s", self.id, cases.len(), self.t0.elapsed().as_secs_f64()); }
        if let Some(c) = cases.get(cases.len() / 2) { self.sample(name, || trunc(&format!("{c:?}"), 400)); }
    }

    /// Level-synchronous breadth-first search over all states within `depth` steps.
    pub fn bfs<M: Model>(&self, name: &str, m: &M, depth: usize) {
        type Node<S> = (S, Vec<u32>);
        let seen: Vec<Mutex<HashSet<u128>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let insert = |h: u128| seen[(h as usize) & 63].lock().unwrap().insert(h);
        let mut level: Vec<Node<M::S>> = vec![];
        for (i, s) in m.init().into_iter().enumerate() { if insert(hash128(&s)) { level.push((s, vec![i as u32])); } }
        let mut total = level.len() as u64;
        let mut steps = 0u64;
        let mut leaves = 0u64;
        for d in 0..depth {
            if level.is_empty() || self.stopped() { break; }
            let next = AtomicUsize::new(0);
            let out: Mutex<Vec<Node<M::S>>> = Mutex::new(vec![]);
            let (st, lv) = (AtomicU64::new(0), AtomicU64::new(0));
            std::thread::scope(|sc| {
                for wk in 0..workers() {
                    let (next, out, level, insert, st, lv) = (&next, &out, &level, &insert, &st, &lv);
                    sc.spawn(move || {
                        ME.with(|c| c.set(wk));
                        let mut mine = vec![];
                        loop {
                            let a = next.fetch_add(4, Relaxed);
                            if a >= level.len() || self.stopped() { break; }
                            for (s, path) in &level[a..(a + 4).min(level.len())] {
                                let acts = m.actions(s);
                                let mut grew = false;
                                for (ai, act) in acts.iter().enumerate() {
                                    busy(&|| trunc(&format!("{name} {act:?}"), 1000));
                                    st.fetch_add(1, Relaxed);
                                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.step(s, act)));
                                    let r = r.unwrap_or_else(|p| {
                                        let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                        Err(Bad { key: format!("{name}-panic"), msg: format!("panic: {s}"), last: None })
                                    });
                                    match r {
                                        Ok(None) => {}
                                        Ok(Some(n)) => {
                                            grew = true;
                                            if insert(hash128(&n)) {
                                                let mut p = path.clone();
                                                p.push(ai as u32);
                                                mine.push((n, p));
                                            }
                                        }
                                        Err(b) => {
                                            let mut t = self.rebuild(m, path);
                                            t.push(format!("{act:?}"));
                                            self.fail(&b.key, format!("{name}: {}", b.msg), t, b.last);
                                        }
                                    }
                                }
                                if !grew { lv.fetch_add(1, Relaxed); }
                            }
                        }
                        idle();
                        out.lock().unwrap().append(&mut mine);
                        self.count("transactions_executed", TX_COUNT.with(|c| c.replace(0)));
                    });
                }
            });
            steps += st.into_inner();
            leaves += lv.into_inner();
            level = out.into_inner().unwrap();
            // canonical order, so that the search does not depend on scheduling
            level.sort_by(|a, b| a.1.cmp(&b.1));
            total += level.len() as u64;
            self.count(&format!("bfs.{name}.level{}", d + 1), level.len() as u64);
            if std::env::var("MC_T").is_ok() { eprintln!("{} {name} level {} states {} steps {steps}, {:.1}s", self.id, d + 1, level.len(), self.t0.elapsed().as_secs_f64()); }
        }
        leaves += level.len() as u64;
        self.state(total);
        self.trans(steps);
        self.trace(leaves);
        self.count(&format!("bfs.{name}.fixpoint"), level.is_empty() as u64);
        if let Some((_, p)) = level.get(level.len() / 2) { self.sample(name, || trunc(&self.rebuild(m, p).join(" ; "), 800)); TX_COUNT.with(|c| c.set(0)); }
    }
    fn rebuild<M: Model>(&self, m: &M, path: &[u32]) -> Vec<String> {
        let mut s = match m.init().into_iter().nth(path[0] as usize) { Some(s) => s, None => return vec![] };
        let mut t = vec![format!("init #{}", path[0])];
        for a in &path[1..] {
            let acts = m.actions(&s);
            let Some(act) = acts.get(*a as usize) else { break };
            t.push(format!("{act:?}"));
            match m.step(&s, act) { Ok(Some(n)) => s = n, _ => break }
        }
        t
    }

    /// Writes the evidence file, prints the verdict and returns the exit code.
    pub fn finish(self) -> i32 {
        let root = root();
        let viols = self.viols.into_inner().unwrap();
        let tx = TX_COUNT.with(|c| c.replace(0));
        self.transitions.fetch_add(tx, Relaxed);
        let mut cov = vec![
            format!("\"states\": {}", self.states.load(Relaxed)),
            format!("\"transitions\": {}", self.transitions.load(Relaxed)),
            format!("\"traces_validated_against_impl\": {}", self.traces.load(Relaxed)),
            format!("\"exhaustive\": {}", !self.stop.load(Relaxed)),
        ];
        let samples: Vec<String> = self.samples.into_inner().unwrap().iter().map(|(k, v)| format!("{{\"of\": {}, \"case\": {}}}", json_str(k), json_str(v))).collect();
        cov.push(format!("\"samples\": [{}]", samples.join(", ")));
        let c: Vec<String> = self.counts.into_inner().unwrap().iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
        cov.push(format!("\"measured\": {{{}}}", c.join(", ")));
        let asm: Vec<String> = self.assumptions.into_inner().unwrap().iter().map(|s| json_str(s)).collect();
        let ev = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            self.id, if self.thorough { "thorough" } else { "quick" }, self.seed, cov.join(",\n  "), asm.join(", "), self.t0.elapsed().as_secs_f64(), viols.len());
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        std::fs::write(format!("{root}/evidence/{}.json", self.id), ev).expect("evidence");
        for k in self.known_hit.into_inner().unwrap() {
            let what = &self.known.iter().find(|x| x.0 == k).unwrap().1;
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, k);
        }
        if viols.is_empty() {
            println!("{} holds: {} states, {} transitions, {} traces ({:.1}s)", self.id, self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed), self.t0.elapsed().as_secs_f64());
            return 0;
        }
        let mut keys: BTreeMap<&str, u32> = BTreeMap::new();
        for (n, v) in viols.iter().enumerate() {
            let c = keys.entry(&v.key).or_default();
            *c += 1;
            if *c > 3 || n > 12 { continue; }
            let mut t = format!("property {}\nkey {}\n{}\n\ntrace:\n", self.id, v.key, v.msg);
            for l in &v.trace { t.push_str(&format!("  {l}\n")); }
            if let Some((w, ixs)) = &v.last { t.push_str("\nlast transaction (state before it, instructions):\n"); t.push_str(&dump(w, ixs)); }
            let p = write_replay(self.id, n, &t);
            println!("  {} [{}]", trunc(&v.msg, 1500), v.key);
            println!("VIOLATION property={} replay={p}", self.id);
        }
        1
    }
}
pub fn trunc(s: &str, n: usize) -> String { if s.len() <= n { s.into() } else { let mut e = n; while !s.is_char_boundary(e) { e -= 1; } format!("{}…", &s[..e]) } }
pub fn root() -> String { std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()) }
pub fn write_replay(id: &str, n: usize, t: &str) -> String {
    let d = format!("{}/evidence/replay", root());
    let _ = std::fs::create_dir_all(&d);
    let p = format!("{d}/{id}-{n}.txt");
    let _ = std::fs::write(&p, t);
    p
}
pub fn dump(w: &World, ixs: &[Ix]) -> String {
    let mut t = format!("slot {}\n", w.slot);
    for (k, a) in &w.accts { t.push_str(&format!("acct {} {} {} {} {}\n", hx(k), a.lamports, hx(&a.owner), a.exec as u8, if a.data.is_empty() { "-".into() } else { hx(&a.data) })); }
    for ix in ixs {
        t.push_str(&format!("ix {}", hx(&ix.prog)));
        for m in &ix.metas { t.push_str(&format!(" {}:{}{}", hx(&m.key), if m.signer { "s" } else { "-" }, if m.writable { "w" } else { "-" })); }
        t.push_str(&format!(" data={}\n", hx(&ix.data)));
    }
    t
}
/// Re-executes the last transaction of a replay file against the current build.
pub fn replay(path: &str) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let un = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let k = |s: &str| -> Key { un(s).try_into().unwrap() };
    let mut w = World::default();
    let mut ixs = vec![];
    for l in t.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "slot" => w.slot = f[1].parse().unwrap(),
            "acct" => w.put(k(f[1]), Acct { lamports: f[2].parse().unwrap(), owner: k(f[3]), exec: f[4] == "1", data: if f[5] == "-" { vec![] } else { un(f[5]) } }),
            "ix" => {
                let mut ix = Ix { prog: k(f[1]), metas: vec![], data: vec![] };
                for x in &f[2..] {
                    if let Some(d) = x.strip_prefix("data=") { ix.data = un(d); continue; }
                    let (a, b) = x.split_once(':').unwrap();
                    ix.metas.push(Meta { key: k(a), signer: b.contains('s'), writable: b.contains('w') });
                }
                ixs.push(ix);
            }
            _ => println!("{l}"),
        }
    }
    LOG.with(|l| l.set(true));
    match exec(&w, &ixs) {
        Ok(d) => println!("replayed: accepted\n{}", dump(&d.world, &[])),
        Err(e) => println!("replayed: rejected {e:?}"),
    }
    LAST_LOG.with(|l| for s in l.borrow().iter() { println!("log: {s}"); });
}

pub struct Bad { pub key: String, pub msg: String, pub last: Option<(World, Vec<Ix>)> }
pub fn bad<T>(key: &str, msg: String, w: &World, ixs: &[Ix]) -> Result<T, Bad> { Err(Bad { key: key.into(), msg, last: Some((w.clone(), ixs.to_vec())) }) }

pub trait Model: Sync {
    type S: Hash + Send + Sync;
    type A: std::fmt::Debug;
    fn init(&self) -> Vec<Self::S>;
    fn actions(&self, s: &Self::S) -> Vec<Self::A>;
    /// `Ok(None)`: rejected as the specification says, or nothing new.
    fn step(&self, s: &Self::S, a: &Self::A) -> Result<Option<Self::S>, Bad>;
}

#[derive(Default)]
struct H2(u64, u64);
impl Hasher for H2 {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            let v = u64::from_le_bytes(x) ^ ((c.len() as u64) << 56);
            self.0 = (self.0 ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            self.1 = (self.1.rotate_left(23) ^ v.wrapping_mul(0x94D0_49BB_1331_11EB)).wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ (self.1 >> 31);
        }
    }
    fn finish(&self) -> u64 { self.0 }
}
pub fn hash128<T: Hash>(t: &T) -> u128 {
    let mut h = H2(0x1234_5678_9abc_def1, 0x0fed_cba9_8765_4321);
    t.hash(&mut h);
    (h.0 as u128) << 64 | h.1 as u128
}
