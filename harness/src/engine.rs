//! The search engine: fixed seeds, bounded-exhaustive enumeration over small alphabets of lexemes, and random search
//! over choice tapes guided by the edge coverage of the code under test. Deterministic for a given tree, seed and tier.
use crate::ast::Doc;
use crate::cov;
use crate::model::EK;
use crate::tape::{Rng, Src};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// One case, as decoded from a tape; also the content of a replay file.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Case {
    /// a source
    Text(String),
    /// two sources
    Two(String, String),
    /// a document and a source that is claimed to denote it
    Doc(Doc, String),
    /// a source and the titles of the collapsibles around it, outermost first
    Wrap(String, Vec<String>),
    /// a source and a replacement of ordinary characters
    Rename(String, Vec<(char, char)>),
    /// a stream of operations over a source
    Ops(String, Vec<OpD>),
    /// a source and the tokens taken from it
    Toks(String, Vec<usize>),
    /// a requested length and literal length
    Nums(usize, usize),
    /// several sources, and choices among what they hold
    Mix(Vec<String>, Vec<usize>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct OpD {
    pub k: EKD,
    /// owned text, or a span of the source
    pub s: Result<String, (usize, usize)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum EKD {
    S(usize),
    E(usize),
    V,
}

impl EKD {
    pub fn of(k: EK) -> EKD {
        let ix = |n| crate::model::NODES.iter().position(|m| *m == n).unwrap();
        match k {
            EK::Start(n) => EKD::S(ix(n)),
            EK::End(n) => EKD::E(ix(n)),
            EK::Value => EKD::V,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Out {
    /// outside the domain of the property
    Discard,
    Trivial,
    Good,
}

pub type Check = fn(&Case) -> Result<Out, String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub gen: fn(&mut Src) -> Case,
    pub from_text: fn(String) -> Option<Case>,
    pub check: Check,
    /// alphabets of lexemes and the longest sequences enumerated, quick and thorough
    pub alphabets: &'static [(&'static [&'static str], usize, usize)],
    /// random cases in the quick tier (all threads together)
    pub cases: u64,
    /// further fixed cases
    pub fixed: fn() -> Vec<Case>,
    /// assumptions stated in the evidence
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LABELS: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
    static CURRENT: RefCell<Option<Case>> = const { RefCell::new(None) };
    static PANIC_AT: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Counts the running case under a label of the evidence.
pub fn label(l: &'static str) {
    LABELS.with(|m| *m.borrow_mut().entry(l).or_insert(0) += 1);
}

pub struct Ctx {
    pub prop: &'static Prop,
    pub tier: String,
    pub seed: u64,
}

static PROP_ID: Mutex<String> = Mutex::new(String::new());

pub fn install_hooks(id: &str) {
    *PROP_ID.lock().unwrap() = id.to_string();
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic outside of a case: {msg} at {loc}");
        }
        PANIC_AT.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
    let _ = cov::OVERRUN.set(overrun);
}

/// The budget of a case was exceeded inside the code under test. The thread cannot be unwound from there; report the
/// case from here and end the process.
fn overrun(what: &str) -> ! {
    let case = CURRENT.with(|c| c.borrow_mut().take());
    let id = PROP_ID.lock().unwrap().clone();
    let case = match case {
        Some(c) => c,
        None => {
            eprintln!("budget exceeded outside of a case: {what}");
            std::process::exit(3);
        }
    };
    if std::env::var_os("HARNESS_ONE").is_some() {
        eprintln!("{what}");
        std::process::exit(1);
    }
    static ONCE: Mutex<()> = Mutex::new(());
    let _g = ONCE.lock();
    let case = shrink_in_children(&id, case);
    report(&id, &case, &format!("the case needs {what}"));
    std::process::exit(1);
}

fn child_fails(id: &str, case: &Case) -> bool {
    let dir = scratch();
    let f = dir.join(format!("try-{}.json", std::process::id()));
    std::fs::write(&f, replay_json(id, case, "")).ok();
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("one")
        .arg(&f)
        .env("HARNESS_ONE", "1")
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    std::fs::remove_file(&f).ok();
    matches!(st, Ok(s) if s.code() == Some(1))
}

fn shrink_in_children(id: &str, case: Case) -> Case {
    let mut left = 150;
    shrink_text(case, &mut |c| {
        if left == 0 {
            return false;
        }
        left -= 1;
        child_fails(id, c)
    })
}

pub fn verif() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

pub fn scratch() -> std::path::PathBuf {
    let d = verif().join("scratch");
    std::fs::create_dir_all(&d).ok();
    d
}

pub fn replay_json(id: &str, case: &Case, msg: &str) -> String {
    serde_json::to_string_pretty(&serde_json::json!({"property": id, "case": case, "message": msg})).unwrap()
}

fn brief(s: &str) -> String {
    match s.char_indices().nth(3000) {
        Some((i, _)) => format!("{}... ({} bytes in all)", &s[..i], s.len()),
        None => s.to_string(),
    }
}

/// Writes the replay file and prints the violation.
pub fn report(id: &str, case: &Case, msg: &str) {
    let dir = verif().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let mut h = DefaultHasher::new();
    case.hash(&mut h);
    let f = dir.join(format!("{id}-{:016x}.json", h.finish()));
    std::fs::write(&f, replay_json(id, case, msg)).expect("write replay file");
    println!("minimal failing case: {}", brief(&format!("{case:?}")));
    println!("{}", brief(msg));
    println!("VIOLATION property={id} replay={}", f.display());
}

/// Work allowed for reading a source: generous multiples of what the tree needs.
pub fn budget(s: &str) -> u64 {
    let n = s.len() as u128;
    let u = s.matches("{%").count() as u128 + 1;
    // every unclosed opener has the rest read again, for every other one, and an unclosed link or image likewise
    let b = 20 * (4000 + 150 * n + 4 * n * n + 4 * u * u * u + u * u * n * n / 4);
    b.min(u64::MAX as u128 / 1000) as u64
}

/// Stack allowed for it: constant (measured: under 4 kB) but for what nests to any depth (measured: 300 bytes a
/// level), collapsibles and lists.
pub fn stack_budget(s: &str) -> usize {
    let u = s.matches("{%").count() + s.lines().filter(|l| l.starts_with(' ')).count();
    (128 << 10) + 16 * 1024 * u
}

fn case_budget(c: &Case) -> (u64, usize) {
    let s = match c {
        Case::Text(s) | Case::Rename(s, _) | Case::Ops(s, _) | Case::Toks(s, _) => s.clone(),
        // at least as long and as deep as what the document is written as
        Case::Doc(d, s) if s.is_empty() => format!("{d:?}").replace("Collapsible(", "{%").replace("nested: Some", "\n "),
        Case::Doc(_, s) => s.clone(),
        Case::Two(a, b) => format!("{a}\n\n{b}"),
        Case::Wrap(a, t) => format!("{}{a}", t.iter().map(|t| format!("{{% {t}\n%}}")).collect::<String>()),
        Case::Nums(..) => String::new(),
        // what is chosen may be chosen again and again
        Case::Mix(v, p) => v.concat().repeat(2 + p.len()),
    };
    // a case reads a source, what it prints (at most about twice as long) and variants of it, several times
    let long = format!("{s}{s}");
    (20 * budget(&long), 4 * stack_budget(&s))
}

/// Runs the check on one case. A panic of the code under test is a failure of the case.
pub fn run_case(check: Check, c: &Case) -> Result<Out, String> {
    let (b, st) = case_budget(c);
    CURRENT.with(|x| *x.borrow_mut() = Some(c.clone()));
    cov::reset(b, st);
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| check(c)));
    QUIET.with(|q| q.set(false));
    CURRENT.with(|x| *x.borrow_mut() = None);
    cov::rebudget(u64::MAX);
    match r {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC_AT.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                eprintln!("HARNESS ERROR: panic in the harness at {loc}: {msg}\ncase: {c:?}");
                std::process::exit(3);
            }
            Err(format!("panicked at {loc}: {msg}"))
        }
    }
}

/// Runs `f`, which is expected to be able to panic; None if it did.
pub fn may_panic<R>(f: impl FnOnce() -> R) -> Option<R> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    QUIET.with(|q| q.set(was));
    r
}

// --- shrinking ------------------------------------------------------------------------------------------------------

fn shrink_str(s: &str, fails: &mut dyn FnMut(&str) -> bool) -> String {
    let start = Instant::now();
    let in_time = || start.elapsed().as_secs() < 50;
    let mut cur: Vec<char> = s.chars().collect();
    let mut size = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() && in_time() {
            let mut t = cur.clone();
            t.drain(i..(i + size).min(cur.len()));
            let st: String = t.iter().collect();
            if fails(&st) {
                cur = t;
                any = true;
            } else {
                i += size;
            }
        }
        if size > 1 {
            size /= 2;
        } else if !any {
            break;
        }
    }
    // simpler characters
    for i in 0..cur.len() {
        if in_time() && cur[i] != 'a' && crate::gen::plain_char(cur[i]) {
            let mut t = cur.clone();
            t[i] = 'a';
            let st: String = t.iter().collect();
            if fails(&st) {
                cur = t;
            }
        }
    }
    cur.into_iter().collect()
}

/// Shrinks the texts of a case, for the kinds of cases that consist of sources.
pub fn shrink_text(c: Case, fails: &mut dyn FnMut(&Case) -> bool) -> Case {
    match c {
        Case::Text(s) => Case::Text(shrink_str(&s, &mut |t| fails(&Case::Text(t.to_string())))),
        Case::Two(a, b) => {
            let a = shrink_str(&a, &mut |t| fails(&Case::Two(t.to_string(), b.clone())));
            let b = shrink_str(&b, &mut |t| fails(&Case::Two(a.clone(), t.to_string())));
            Case::Two(a, b)
        }
        Case::Wrap(a, t) => {
            let mut t = t;
            while t.len() > 1 && fails(&Case::Wrap(a.clone(), t[1..].to_vec())) {
                t.remove(0);
            }
            let a = shrink_str(&a, &mut |x| fails(&Case::Wrap(x.to_string(), t.clone())));
            Case::Wrap(a, t)
        }
        Case::Rename(a, m) => {
            let a = shrink_str(&a, &mut |x| fails(&Case::Rename(x.to_string(), m.clone())));
            let mut m = m;
            let mut i = 0;
            while i < m.len() {
                let mut n = m.clone();
                n.remove(i);
                if fails(&Case::Rename(a.clone(), n.clone())) {
                    m = n;
                } else {
                    i += 1;
                }
            }
            Case::Rename(a, m)
        }
        Case::Ops(s, ops) => {
            let mut ops = ops;
            let mut i = 0;
            while i < ops.len() {
                let mut t = ops.clone();
                t.remove(i);
                if fails(&Case::Ops(s.clone(), t.clone())) {
                    ops = t;
                } else {
                    i += 1;
                }
            }
            Case::Ops(s, ops)
        }
        Case::Mix(mut v, mut p) => {
            let mut i = 0;
            while i < p.len() {
                let mut t = p.clone();
                t.remove(i);
                if fails(&Case::Mix(v.clone(), t.clone())) {
                    p = t;
                } else {
                    i += 1;
                }
            }
            let mut i = 0;
            while i < v.len() {
                let mut t = v.clone();
                t.remove(i);
                if fails(&Case::Mix(t.clone(), p.clone())) {
                    v = t;
                } else {
                    i += 1;
                }
            }
            for i in 0..v.len() {
                let x = shrink_str(&v[i].clone(), &mut |x| {
                    let mut t = v.clone();
                    t[i] = x.to_string();
                    fails(&Case::Mix(t, p.clone()))
                });
                v[i] = x;
            }
            Case::Mix(v, p)
        }
        Case::Toks(s, mut p) => {
            let mut i = 0;
            while i < p.len() {
                let mut t = p.clone();
                t.remove(i);
                if fails(&Case::Toks(s.clone(), t.clone())) {
                    p = t;
                } else {
                    i += 1;
                }
            }
            Case::Toks(s, p)
        }
        c => c,
    }
}

fn shrink_tape(tape: &[u16], fails: &mut dyn FnMut(&[u16]) -> bool) -> Vec<u16> {
    let mut cur = tape.to_vec();
    let mut rounds = 0;
    loop {
        rounds += 1;
        let mut any = false;
        let mut size = (cur.len() / 2).max(1);
        while size > 0 {
            let mut i = 0;
            while i < cur.len() {
                let mut t = cur.clone();
                t.drain(i..(i + size).min(t.len()));
                if fails(&t) {
                    cur = t;
                    any = true;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        for i in 0..cur.len() {
            if cur[i] == 0 {
                continue;
            }
            let mut t = cur.clone();
            t[i] = 0;
            if fails(&t) {
                cur = t;
                any = true;
                continue;
            }
            let (mut lo, mut hi) = (0u32, cur[i] as u32);
            while lo + 1 < hi {
                let mid = (lo + hi) / 2;
                t[i] = mid as u16;
                if fails(&t) {
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
            if hi != cur[i] as u32 {
                cur[i] = hi as u16;
                any = true;
            }
        }
        if !any || rounds > 4 {
            return cur;
        }
    }
}

// --- search ---------------------------------------------------------------------------------------------------------

#[derive(Default)]
struct Tally {
    evaluations: u64,
    discarded: u64,
    enumerated: u64,
    random: u64,
    guided: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    samples: Vec<Case>,
    labels: BTreeMap<&'static str, u64>,
    edges: HashSet<u32>,
    corpus: usize,
}

enum Found {
    Tape(Vec<u16>, String),
    Case(Case, String),
}

fn hash(c: &Case) -> u64 {
    let mut h = DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

fn nth_sequence(alpha: &[&str], mut k: u64, len: usize) -> String {
    let mut out = String::new();
    for _ in 0..len {
        out.push_str(alpha[(k % alpha.len() as u64) as usize]);
        k /= alpha.len() as u64;
    }
    out
}

fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

pub const THREADS: usize = 8;

pub struct Summary {
    pub coverage: serde_json::Value,
    pub violations: u64,
    pub wall: f64,
}

pub fn search(ctx: &Ctx) -> Summary {
    let start = Instant::now();
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let tallies: Mutex<Vec<Tally>> = Mutex::new(vec![]);
    let prop = ctx.prop;
    let thorough = ctx.tier == "thorough";
    let total = if thorough { prop.cases * 25 } else { prop.cases };
    let fixed: Vec<Case> = crate::seeds::SEEDS
        .iter()
        .map(|s| s.to_string())
        .chain(crate::dict::dict().docs.iter().cloned())
        .chain(crate::dict::dict().strings.iter().cloned())
        .chain(crate::scale::sources())
        // Y12 puts every text in every place, and has the documents of the longer ones
        .chain(crate::scale::characters().into_iter().filter(|s| prop.id != "Y12" || s.chars().count() <= 8))
        .filter_map(|s| (prop.from_text)(s))
        .chain((prop.fixed)())
        .collect();
    let fixed = &fixed;
    let progress = AtomicU64::new(0);
    let deadline: Option<f64> = std::env::var("HARNESS_SECONDS").ok().and_then(|s| s.parse().ok());
    std::thread::scope(|sc| {
        for w in 0..THREADS {
            let (stop, found, tallies, progress) = (&stop, &found, &tallies, &progress);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, move || {
                    cov::install();
                    let mut t = Tally::default();
                    let fail = |f: Found| {
                        if !stop.swap(true, Ordering::SeqCst) {
                            *found.lock().unwrap() = Some(f);
                        }
                    };
                    let one = |c: &Case, t: &mut Tally, sample: bool| -> Result<Out, String> {
                        let r = run_case(prop.check, c)?;
                        t.evaluations += 1;
                        match r {
                            Out::Discard => t.discarded += 1,
                            Out::Trivial => {}
                            Out::Good => {
                                t.nontrivial += 1;
                                let fresh = t.distinct.len() >= 1_000_000 || t.distinct.insert(hash(c));
                                if fresh && sample && t.samples.len() < 2 {
                                    t.samples.push(c.clone());
                                }
                            }
                        }
                        Ok(r)
                    };
                    // fixed cases
                    for (i, c) in fixed.iter().enumerate() {
                        if i % THREADS != w || stop.load(Ordering::Relaxed) {
                            continue;
                        }
                        if let Err(m) = one(c, &mut t, false) {
                            fail(Found::Case(c.clone(), m));
                        }
                    }
                    let phase = |what: &str| {
                        if w == 0 && std::env::var_os("HARNESS_PHASES").is_some() {
                            eprintln!("{what} done after {:.1} s", start.elapsed().as_secs_f64());
                        }
                    };
                    phase("fixed cases");
                    // bounded-exhaustive enumeration
                    for (alpha, q, th) in prop.alphabets {
                        let max = if thorough { *th } else { *q };
                        for len in 0..=max {
                            let n = (alpha.len() as u64).pow(len as u32);
                            let mut k = w as u64;
                            while k < n {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                if let Some(c) = (prop.from_text)(nth_sequence(alpha, k, len)) {
                                    t.enumerated += 1;
                                    if let Err(m) = one(&c, &mut t, false) {
                                        fail(Found::Case(c, m));
                                    }
                                }
                                k += THREADS as u64;
                            }
                        }
                    }
                    phase("enumeration");
                    // strings of the code under test among lexemes
                    let alpha = prop.alphabets.first().map_or(&["a", "\n", " ", "*", "\\"][..], |a| a.0);
                    let alpha: Vec<&str> = [""].iter().chain(alpha).copied().collect();
                    for (k, w_) in crate::dict::dict().novel.iter().enumerate() {
                        for (i, a) in alpha.iter().enumerate() {
                            if (i + k) % THREADS != w || stop.load(Ordering::Relaxed) {
                                continue;
                            }
                            for b in &alpha {
                                for s in [format!("{w_}{a}{b}"), format!("{a}{w_}{b}"), format!("{a}{b}{w_}"), format!("{w_}{a}{w_}{b}"), format!("a{a}{w_}{b}a")] {
                                    if let Some(c) = (prop.from_text)(s) {
                                        t.enumerated += 1;
                                        if let Err(m) = one(&c, &mut t, false) {
                                            fail(Found::Case(c, m));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    // random and coverage-guided search
                    let mut h = DefaultHasher::new();
                    (prop.id, w as u64, ctx.seed).hash(&mut h);
                    let mut rng = Rng::new(h.finish());
                    let mut corpus: Vec<Vec<u16>> = vec![];
                    let mut virgin: Vec<u8> = vec![];
                    let mut i = 0u64;
                    while i < total / THREADS as u64 {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if let Some(d) = deadline {
                            if start.elapsed().as_secs_f64() > d {
                                break;
                            }
                        }
                        i += 1;
                        let guided = !corpus.is_empty() && rng.below(10) < 4;
                        let tape = if guided {
                            let a = rng.below(corpus.len());
                            let b = rng.below(corpus.len());
                            t.guided += 1;
                            rng.mutate(&corpus[a], &corpus[b])
                        } else {
                            t.random += 1;
                            rng.tape()
                        };
                        let case = (prop.gen)(&mut Src::new(&tape));
                        match one(&case, &mut t, i > 50) {
                            Err(m) => {
                                fail(Found::Tape(tape, m));
                                break;
                            }
                            Ok(Out::Discard) => {}
                            Ok(_) => cov::with(|s| {
                                if virgin.is_empty() {
                                    virgin = vec![0; s.map.len()];
                                }
                                let mut new = false;
                                for (v, c) in virgin.iter_mut().zip(&s.map) {
                                    if *c != 0 {
                                        let b = bucket(*c);
                                        if *v & b == 0 {
                                            *v |= b;
                                            new = true;
                                        }
                                    }
                                }
                                // cases of much work would slow down the search
                                if new && tape.len() < 800 && s.total < 200_000 {
                                    corpus.push(tape);
                                }
                            }),
                        }
                        if i % 1024 == 0 {
                            progress.fetch_add(1024, Ordering::Relaxed);
                        }
                    }
                    phase("random search");
                    t.corpus = corpus.len();
                    t.edges = virgin
                        .iter()
                        .enumerate()
                        .filter(|(_, v)| **v != 0)
                        .map(|(i, _)| i as u32)
                        .collect();
                    t.labels = LABELS.with(|l| l.borrow().clone());
                    tallies.lock().unwrap().push(t);
                })
                .unwrap();
        }
    });
    let tallies = tallies.into_inner().unwrap();
    let mut all = Tally::default();
    for t in tallies {
        all.evaluations += t.evaluations;
        all.discarded += t.discarded;
        all.enumerated += t.enumerated;
        all.random += t.random;
        all.guided += t.guided;
        all.nontrivial += t.nontrivial;
        all.distinct.extend(t.distinct);
        all.samples.extend(t.samples);
        all.edges.extend(t.edges);
        all.corpus += t.corpus;
        for (k, v) in t.labels {
            *all.labels.entry(k).or_insert(0) += v;
        }
    }
    let mut violations = 0;
    if let Some(f) = found.into_inner().unwrap() {
        violations = 1;
        let (case, msg) = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, || {
                    cov::install();
                    minimise(prop, f)
                })
                .unwrap()
                .join()
                .unwrap()
        });
        report(prop.id, &case, &msg);
    }
    let samples: Vec<String> = all
        .samples
        .iter()
        .take(8)
        .map(|c| {
            let s = format!("{c:?}");
            s.chars().take(600).collect()
        })
        .collect();
    let samples = if samples.is_empty() { vec!["none".to_string()] } else { samples };
    Summary {
        coverage: serde_json::json!({
            "evaluations": all.evaluations,
            "distinct_nontrivial": all.distinct.len(),
            "nontrivial": all.nontrivial,
            "discarded": all.discarded,
            "fixed_cases": fixed.len(),
            "enumerated_exhaustively": all.enumerated,
            "random_tapes": all.random,
            "coverage_guided_tapes": all.guided,
            "corpus": all.corpus,
            "edges_reached": all.edges.len(),
            "edges_instrumented": cov::guards() - 1,
            "classes": all.labels,
            "rule": prop.rule,
            "samples": samples,
        }),
        violations,
        wall: start.elapsed().as_secs_f64(),
    }
}

fn minimise(prop: &Prop, f: Found) -> (Case, String) {
    let start = Instant::now();
    let in_time = || start.elapsed().as_secs() < 60;
    let case = match f {
        Found::Case(c, _) => c,
        Found::Tape(t, _) => {
            let t = shrink_tape(&t, &mut |t| {
                let c = (prop.gen)(&mut Src::new(t));
                in_time() && run_case(prop.check, &c).is_err()
            });
            (prop.gen)(&mut Src::new(&t))
        }
    };
    let case = shrink_text(case, &mut |c| in_time() && run_case(prop.check, c).is_err());
    let msg = run_case(prop.check, &case).err().unwrap_or_else(|| "the failure did not reproduce".into());
    (case, msg)
}
