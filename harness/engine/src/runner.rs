//! Runs the facets of a property over generated cases on all cores, shrinks
//! the first failure, writes the replay file and the evidence file.

use crate::{
    gen::{fnv, mix},
    json, Gen,
};
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashSet},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Debug)]
pub struct Failure {
    pub msg: String,
    /// Signature, for the comparison with the known-findings file.
    pub sig: Option<String>,
}

pub type CaseResult = Result<(), Failure>;

pub fn fail(msg: impl Into<String>) -> CaseResult {
    Err(Failure {
        msg: msg.into(),
        sig: None,
    })
}

pub fn known(sig: impl Into<String>, msg: impl Into<String>) -> CaseResult {
    Err(Failure {
        msg: msg.into(),
        sig: Some(sig.into()),
    })
}

pub struct Facet {
    pub name:     &'static str,
    /// Number of cases in the quick and thorough tier.
    pub quick:    u64,
    pub thorough: u64,
    /// Cases of this facet may not run concurrently with others.
    pub serial:   bool,
    pub run:      fn(&mut Gen) -> CaseResult,
}

impl Facet {
    pub fn new(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Gen) -> CaseResult) -> Self {
        Facet {
            name,
            quick,
            thorough,
            serial: false,
            run,
        }
    }

    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
}

pub struct Property {
    pub id:          &'static str,
    pub rule:        &'static str,
    pub assumptions: &'static [&'static str],
    pub facets:      Vec<Facet>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn panic_text(e: &Box<dyn Any + Send>) -> String {
    let m = e
        .downcast_ref::<&str>()
        .map(|s| (*s).to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "(non-string panic)".to_string());
    let at = LAST_PANIC.with(|l| l.borrow().clone());
    format!("panic: {} {}", m, at)
}

fn run_case(facet: &Facet, g: &mut Gen) -> CaseResult {
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (facet.run)(g))) {
        Ok(r) => r,
        Err(e) => fail(panic_text(&e)),
    }
}

#[derive(Default)]
struct FacetStats {
    cases:      u64,
    evals:      u64,
    nontrivial: HashSet<u64>,
    labels:     BTreeMap<&'static str, u64>,
    samples:    Vec<(u64, String)>,
    known:      BTreeMap<String, (u64, String)>,
    failure:    Option<(u64, Vec<u64>, Failure)>,
}

fn hash_choices(c: &[u64]) -> u64 {
    mix(c)
}

fn shrink(facet: &Facet, choices: Vec<u64>, first: Failure, known: &BTreeSet<String>) -> (Vec<u64>, Failure, u64) {
    let start = Instant::now();
    let mut best = choices;
    let mut fail = first;
    let mut tries = 0_u64;
    let budget = Duration::from_secs(25);
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, fail: &mut Failure| -> bool {
        if start.elapsed() > budget || tries > 40_000 {
            return false;
        }
        tries += 1;
        let mut g = Gen::replay(cand);
        match run_case(facet, &mut g) {
            Err(f) if f.sig.as_ref().map_or(true, |s| !known.contains(s)) => {
                let smaller = g.record.len() < best.len()
                    || (g.record.len() == best.len() && g.record < *best);
                if smaller {
                    *best = g.record;
                    *fail = f;
                }
                smaller
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // delete blocks
        for size in &[64_usize, 32, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(c, &mut best, &mut fail) {
                    i += size;
                }
            }
        }
        // lower single choices
        let mut i = 0;
        while i < best.len() {
            for cand in &[0_u64, 1] {
                if i < best.len() && best[i] > *cand {
                    let mut c = best.clone();
                    c[i] = *cand;
                    if attempt(c, &mut best, &mut fail) {
                        break;
                    }
                }
            }
            let mut step = best.get(i).copied().unwrap_or(0) / 2;
            while step > 0 && i < best.len() {
                if best[i] >= step {
                    let mut c = best.clone();
                    c[i] -= step;
                    if attempt(c, &mut best, &mut fail) {
                        continue;
                    }
                }
                step /= 2;
            }
            i += 1;
        }
        if best == before || start.elapsed() > budget {
            break;
        }
    }
    (best, fail, tries)
}

fn known_findings(path: &str, id: &str) -> BTreeSet<String> {
    // Lines of the form: `finding: property=<id> sig=<signature> :: text`
    let mut r = BTreeSet::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        for line in s.lines() {
            if let Some(rest) = line.strip_prefix("finding: property=") {
                let mut parts = rest.splitn(2, " sig=");
                if parts.next() == Some(id) {
                    if let Some(sig) = parts.next() {
                        let sig = sig.split(" :: ").next().unwrap_or("").trim();
                        let _ = r.insert(sig.to_string());
                    }
                }
            }
        }
    }
    r
}

fn env(name: &str, default: &str) -> String {
    std::env::var(name).unwrap_or_else(|_| default.to_string())
}

/// usage: <bin> <property> [--replay FILE] [--facet NAME] [--cases N]
///
/// The exploration runs in a child process. When that dies from a signal
/// (segmentation fault, double free, ...) the
/// parent finds the case among the ones in flight and reports it. So it does
/// when a case, run alone, takes a hundred seconds of processor time or all its
/// threads wait; any other hang is an error exit (no answer). A failure found
/// before something else hung or died is still reported (unshrunk).
pub fn run_main(properties: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let property = match properties.into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            println!("unknown property {:?}", id);
            std::process::exit(2);
        }
    };
    if !args.iter().any(|a| a == "--worker") {
        std::process::exit(supervise(&property, &args));
    }
    let opt = move |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
    };
    std::panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map_or_else(String::new, |l| format!("(at {}:{})", l.file(), l.line()));
        LAST_PANIC.with(|l| *l.borrow_mut() = at);
    }));
    let code = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            if let Some(file) = opt("--replay") {
                replay(&property, &file)
            } else if let Some(one) = opt("--one") {
                // facet:case, only to see whether it survives
                let mut parts = one.split(':');
                let facet = parts.next().unwrap_or("").to_string();
                let case: u64 = parts.next().and_then(|c| c.parse().ok()).unwrap_or(0);
                let facet = property.facets.iter().find(|f| f.name == facet).unwrap();
                let mut g = Gen::random(case_seed(&property, facet, case));
                let _ = run_case(facet, &mut g);
                0
            } else {
                explore(
                    &property,
                    opt("--facet"),
                    opt("--cases").and_then(|c| c.parse().ok()),
                )
            }
        })
        .unwrap()
        .join()
        .unwrap_or(3);
    std::process::exit(code);
}

const STACK: usize = 256 << 20;

/// A single case normally takes far less than a second.
const HANG_S: u64 = 120;

/// Time for the other workers to stop and for shrinking, after a failure.
const REPORT_S: u64 = 120;

fn found_path(root: &str, id: &str) -> String {
    format!("{}/replay/.found-{}", root, id)
}

fn write_replay(root: &str, property: &Property, facet: &Facet, case: u64, first: &str, msg: &str, input: &[String], choices: &[u64]) -> String {
    let dir = format!("{}/replay", root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, property.id, facet.name);
    let text = format!(
        "{{\n \"property\": {},\n \"facet\": {},\n \"seed\": {},\n \"case\": {},\n \"message\": {},\n \"original_message\": {},\n \"input\": {},\n \"choices\": {}\n}}\n",
        json::quote(property.id),
        json::quote(facet.name),
        get_seed(),
        case,
        json::quote(msg),
        json::quote(first),
        json::strings(input),
        json::numbers(choices)
    );
    if let Err(e) = std::fs::write(&path, text) {
        println!("cannot write replay: {}", e);
    }
    path
}

fn write_short_evidence(root: &str, property: &Property, evaluations: u64, sample: &str, start: Instant) {
    let evidence = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": 0, \"rule\": {}, \"samples\": [{}]}}, \"assumptions\": [], \"wall_s\": {:.3}, \"violations\": 1}}\n",
        json::quote(property.id),
        json::quote(&env("VERIF_TIER", "quick")),
        get_seed(),
        evaluations,
        json::quote(property.rule),
        json::quote(sample),
        start.elapsed().as_secs_f64()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let _ = std::fs::write(format!("{}/evidence/{}.json", root, property.id), evidence);
}

fn get_seed() -> u64 {
    let s = env("VERIF_SEED", "1");
    s.parse().unwrap_or_else(|_| fnv(&s))
}

fn case_seed(property: &Property, facet: &Facet, i: u64) -> u64 {
    mix(&[get_seed(), fnv(property.id), fnv(facet.name), i])
}

fn slots_path(root: &str, id: &str) -> String {
    format!("{}/replay/.slots-{}", root, id)
}

fn read_slots(path: &str) -> Vec<(u64, u64)> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks_exact(16)
        .map(|c| {
            let mut x = [0_u8; 8];
            x.copy_from_slice(&c[..8]);
            let f = u64::from_le_bytes(x);
            x.copy_from_slice(&c[8..]);
            (f, u64::from_le_bytes(x))
        })
        .collect()
}

enum End {
    Code(i32),
    Signal(i32),
    Hang,
}

fn wait(child: &mut std::process::Child, mut hung: impl FnMut() -> bool) -> End {
    use std::os::unix::process::ExitStatusExt;
    let mut sleep = 2;
    loop {
        match child.try_wait() {
            Ok(Some(s)) => {
                return s
                    .code()
                    .map_or_else(|| End::Signal(s.signal().unwrap_or(0)), End::Code)
            }
            Ok(None) => {}
            Err(_) => return End::Code(2),
        }
        if hung() {
            let _ = child.kill();
            let _ = child.wait();
            return End::Hang;
        }
        std::thread::sleep(Duration::from_millis(sleep));
        sleep = (sleep * 2).min(100);
    }
}

/// Processor time of a process so far, in seconds, and whether all its threads sleep
fn cpu_of(pid: u32) -> (f64, bool) {
    let fields = |path: String| -> Vec<String> {
        let t = std::fs::read_to_string(path).unwrap_or_default();
        let rest = t.rfind(')').map_or("", |i| &t[i + 1..]).to_string();
        rest.split_whitespace().map(|x| x.to_string()).collect()
    };
    let f = fields(format!("/proc/{}/stat", pid));
    let ticks = |k: usize| f.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    let mut asleep = true;
    if let Ok(tasks) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for t in tasks.flatten() {
            let f = fields(format!("{}/stat", t.path().display()));
            asleep &= f.first().map_or(false, |s| s == "S");
        }
    } else {
        asleep = false;
    }
    ((ticks(11) + ticks(12)) / 100.0, asleep)
}

/// Runs the cases that hung alone. One that takes more than a hundred seconds
/// of processor time (not of the clock: the machine may be slow), or in which
/// all threads sleep for a minute, does not terminate, and that is a violation:
/// cases take milliseconds.
fn hanging(property: &Property, root: &str, exe: &std::path::Path, slots: &str, start: Instant) -> i32 {
    const CPU_S: f64 = 100.0;
    let mut in_flight: Vec<_> = read_slots(slots).into_iter().filter(|s| s.1 != 0).collect();
    let _ = std::fs::remove_file(slots);
    in_flight.sort_unstable();
    for &(f, case1) in in_flight.iter().take(2) {
        let facet = match property.facets.get(f as usize) {
            Some(f) => f,
            None => continue,
        };
        let case = case1 - 1;
        let mut child = match std::process::Command::new(exe)
            .args(&[property.id, "--one", &format!("{}:{}", facet.name, case), "--worker"])
            .spawn()
        {
            Ok(c) => c,
            Err(_) => return 2,
        };
        let pid = child.id();
        let (t0, mut polled) = (Instant::now(), Instant::now());
        let mut what = String::new();
        let mut still: Option<(Instant, f64)> = None;
        let end = wait(&mut child, || {
            if polled.elapsed() < Duration::from_secs(1) {
                return false;
            }
            polled = Instant::now();
            let (cpu, asleep) = cpu_of(pid);
            if cpu > CPU_S {
                what = format!("does not terminate within {} s of processor time", CPU_S);
                return true;
            }
            match still {
                Some((t, c)) if asleep && cpu == c => {
                    if t.elapsed() > Duration::from_secs(60) {
                        what = "all threads wait for one another".to_string();
                        return true;
                    }
                }
                _ => still = if asleep { Some((Instant::now(), cpu)) } else { None },
            }
            t0.elapsed() > Duration::from_secs(240)
        });
        if !matches!(end, End::Hang) || what.is_empty() {
            continue;
        }
        // without choices: the case is found by its number
        let path = format!("{}/replay/{}-{}.json", root, property.id, facet.name);
        let text = format!(
            "{{\n \"property\": {},\n \"facet\": {},\n \"seed\": {},\n \"case\": {},\n \"message\": {}\n}}\n",
            json::quote(property.id),
            json::quote(facet.name),
            get_seed(),
            case,
            json::quote(&what)
        );
        let _ = std::fs::write(&path, text);
        write_short_evidence(root, property, case1, &format!("{} case {}: {}", facet.name, case, what), start);
        println!("{} {}: case {}: {}", property.id, facet.name, case, what);
        println!("VIOLATION property={} replay={}", property.id, path);
        return 1;
    }
    println!("{}: no case run alone does so: no answer", property.id);
    3
}

fn supervise(property: &Property, args: &[String]) -> i32 {
    let root = env("VERIF_ROOT", "/verif");
    let _ = std::fs::create_dir_all(format!("{}/replay", root));
    let slots = slots_path(&root, property.id);
    let _ = std::fs::remove_file(&slots);
    let _ = std::fs::remove_file(found_path(&root, property.id));
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(_) => return 2,
    };
    let start = Instant::now();
    let mut child = match std::process::Command::new(&exe)
        .args(&args[1..])
        .arg("--worker")
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return 2,
    };
    let mut seen: Vec<((u64, u64), Instant)> = Vec::new();
    let mut last_poll = Instant::now();
    let found = found_path(&root, property.id);
    let mut found_at: Option<Instant> = None;
    let end = wait(&mut child, || {
        if last_poll.elapsed() < Duration::from_secs(1) {
            return false;
        }
        last_poll = Instant::now();
        let now = read_slots(&slots);
        seen.resize(now.len(), ((0, 0), Instant::now()));
        // all workers that still have a case are stuck in it
        let (mut stuck, mut busy) = (0, 0);
        for (s, n) in seen.iter_mut().zip(now) {
            if s.0 != n {
                *s = (n, Instant::now());
            }
            if n.1 != 0 {
                busy += 1;
                if s.1.elapsed() > Duration::from_secs(HANG_S) {
                    stuck += 1;
                }
            }
        }
        if found_at.is_none() && std::path::Path::new(&found).exists() {
            found_at = Some(Instant::now());
        }
        (busy > 0 && stuck == busy)
            || found_at.map_or(false, |t| t.elapsed() > Duration::from_secs(REPORT_S))
    });
    let earlier = std::fs::read_to_string(&found).ok();
    let _ = std::fs::remove_file(&found);
    if let (Some(path), false) = (earlier, matches!(end, End::Code(_))) {
        let _ = std::fs::remove_file(&slots);
        println!("{}: the run hung or died after it had found a failure; it is not shrunk", property.id);
        write_short_evidence(&root, property, 1, &path, start);
        println!("VIOLATION property={} replay={}", property.id, path);
        return 1;
    }
    let how = match end {
        End::Code(c) if (0..=3).contains(&c) => {
            let _ = std::fs::remove_file(&slots);
            return c;
        }
        End::Code(c) => format!("the process ended with code {}, which nothing here uses", c),
        End::Signal(9) | End::Signal(15) | End::Signal(2) => {
            println!("{}: the run was killed", property.id);
            return 3;
        }
        End::Signal(s) => format!("the process died from signal {}", s),
        End::Hang => {
            println!("{}: a case does not terminate within {} s", property.id, HANG_S);
            return hanging(property, &root, &exe, &slots, start);
        }
    };
    println!("{}: {}", property.id, how);
    let in_flight: Vec<_> = read_slots(&slots).into_iter().filter(|s| s.1 != 0).collect();
    let _ = std::fs::remove_file(&slots);
    for &(f, case1) in &in_flight {
        let facet = match property.facets.get(f as usize) {
            Some(f) => f,
            None => continue,
        };
        let case = case1 - 1;
        let mut child = match std::process::Command::new(&exe)
            .args(&[property.id, "--one", &format!("{}:{}", facet.name, case), "--worker"])
            .spawn()
        {
            Ok(c) => c,
            Err(_) => return 2,
        };
        let t0 = Instant::now();
        let end = wait(&mut child, || t0.elapsed() > Duration::from_secs(HANG_S));
        let what = match end {
            End::Code(0..=3) | End::Hang => continue,
            End::Code(c) => format!("the process ends with code {}", c),
            End::Signal(9) | End::Signal(15) | End::Signal(2) => continue,
            End::Signal(s) => format!("the process dies from signal {}", s),
        };
        let path = format!("{}/replay/{}-{}.json", root, property.id, facet.name);
        let text = format!(
            "{{\n \"property\": {},\n \"facet\": {},\n \"seed\": {},\n \"case\": {},\n \"message\": {}\n}}\n",
            json::quote(property.id),
            json::quote(facet.name),
            get_seed(),
            case,
            json::quote(&what)
        );
        let _ = std::fs::write(&path, text);
        write_short_evidence(&root, property, case1, &format!("{} case {}: {}", facet.name, case, what), start);
        println!("{} {}: case {}: {}", property.id, facet.name, case, what);
        println!("VIOLATION property={} replay={}", property.id, path);
        return 1;
    }
    println!("{}: no single case reproduces it", property.id);
    // Corrupted memory may need the cases before it: does the run die again?
    let mut child = match std::process::Command::new(&exe).args(&args[1..]).arg("--worker").spawn() {
        Ok(c) => c,
        Err(_) => return 2,
    };
    let t0 = Instant::now();
    let limit = start.elapsed() * 3 + Duration::from_secs(HANG_S);
    let end = wait(&mut child, || t0.elapsed() > limit.min(Duration::from_secs(300)));
    let _ = std::fs::remove_file(&slots);
    let what = match end {
        End::Code(1) => return 1,
        End::Code(0..=3) | End::Hang => return 3,
        End::Signal(9) | End::Signal(15) | End::Signal(2) => return 3,
        End::Code(c) => format!("the run ends with code {} again", c),
        End::Signal(s) => format!("the run dies from signal {} again", s),
    };
    let (facet, case) = match in_flight.first().and_then(|s| property.facets.get(s.0 as usize).map(|f| (f, s.1 - 1))) {
        Some(x) => x,
        None => return 3,
    };
    let what = format!("{}, with case {} of {} in flight", what, case, facet.name);
    let path = write_replay(&root, property, facet, case, &how, &what, &[], &[]);
    write_short_evidence(&root, property, 1, &what, start);
    println!("{}: {}", property.id, what);
    println!("VIOLATION property={} replay={}", property.id, path);
    1
}

fn replay(property: &Property, file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {}", file, e);
            return 2;
        }
    };
    let v = match json::parse(&text) {
        Ok(v) => v,
        Err(e) => {
            println!("bad replay file: {}", e);
            return 2;
        }
    };
    let facet = v.get("facet").and_then(|f| f.str()).unwrap_or("").to_string();
    let choices: Vec<u64> = v
        .get("choices")
        .and_then(|c| c.arr())
        .unwrap_or(&[])
        .iter()
        .filter_map(|c| match c {
            json::Value::Num(n) => n.parse().ok(),
            _ => None,
        })
        .collect();
    let facet = match property.facets.iter().find(|f| f.name == facet) {
        Some(f) => f,
        None => {
            println!("no facet {}", facet);
            return 2;
        }
    };
    let mut g = match (v.get("choices"), v.get("case"), v.get("seed")) {
        (None, Some(json::Value::Num(case)), Some(json::Value::Num(seed))) => {
            println!("replaying case {} of seed {}", case, seed);
            Gen::random(mix(&[
                seed.parse().unwrap_or(1),
                fnv(property.id),
                fnv(facet.name),
                case.parse().unwrap_or(0),
            ]))
        }
        _ => Gen::replay(choices),
    };
    g.want_describe = true;
    let r = run_case(facet, &mut g);
    for d in &g.description {
        println!("input: {}", d);
    }
    match r {
        Ok(()) => {
            println!("replay: property holds on this case");
            0
        }
        Err(f) => {
            println!("replay: {}", f.msg);
            println!("VIOLATION property={} replay={}", property.id, file);
            1
        }
    }
}

fn explore(property: &Property, only: Option<String>, cases: Option<u64>) -> i32 {
    let start = Instant::now();
    let seed: u64 = get_seed();
    let tier = env("VERIF_TIER", "quick");
    let thorough = tier == "thorough";
    let root = env("VERIF_ROOT", "/verif");
    let limit = Duration::from_secs(
        env("VERIF_LIMIT_S", if thorough { "5400" } else { "420" })
            .parse()
            .unwrap_or(420),
    );
    let known = known_findings(&format!("{}/KNOWN_FINDINGS.txt", root), property.id);
    let threads = env("VERIF_THREADS", "")
        .parse()
        .unwrap_or_else(|_| std::thread::available_parallelism().map_or(4, |n| n.get()));

    let mut all: Vec<(&Facet, FacetStats)> = Vec::new();
    let mut timed_out = false;
    let slots = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(slots_path(&root, property.id))
        .ok();
    for (facet_index, facet) in property.facets.iter().enumerate() {
        if only.as_ref().map_or(false, |o| o != facet.name) {
            continue;
        }
        let t0 = Instant::now();
        let total = cases.unwrap_or(if thorough { facet.thorough } else { facet.quick });
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let late = AtomicBool::new(false);
        let stats = Mutex::new(FacetStats::default());
        let workers = if facet.serial { 1 } else { threads };
        std::thread::scope(|scope| {
            for w in 0..workers {
                let (next, stop, late, stats, known, root) = (&next, &stop, &late, &stats, &known, &root);
                let slots = &slots;
                let note = move |w: usize, case: u64| {
                    use std::os::unix::fs::FileExt;
                    if let Some(f) = slots {
                        let mut b = [0_u8; 16];
                        b[..8].copy_from_slice(&(facet_index as u64).to_le_bytes());
                        b[8..].copy_from_slice(&case.to_le_bytes());
                        let _ = f.write_at(&b, 16 * w as u64);
                    }
                };
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(scope, move || {
                        let mut local = FacetStats::default();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if start.elapsed() > limit {
                                late.store(true, Ordering::Relaxed);
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= total {
                                break;
                            }
                            note(w, i + 1);
                            let mut g = Gen::random(case_seed(property, facet, i));
                            g.want_describe = i < 3;
                            let r = run_case(facet, &mut g);
                            local.cases += 1;
                            local.evals += g.evals;
                            if g.nontrivial {
                                let _ = local.nontrivial.insert(hash_choices(&g.record));
                            }
                            for (k, v) in &g.labels {
                                *local.labels.entry(k).or_insert(0) += v;
                            }
                            if i < 3 && !g.description.is_empty() {
                                local.samples.push((i, g.description.join("; ")));
                            }
                            if let Err(f) = r {
                                match &f.sig {
                                    Some(s) if known.contains(s) => {
                                        let e = local
                                            .known
                                            .entry(s.clone())
                                            .or_insert((0, f.msg.clone()));
                                        e.0 += 1;
                                    }
                                    _ => {
                                        let better = local
                                            .failure
                                            .as_ref()
                                            .map_or(true, |(j, ..)| i < *j);
                                        if better {
                                            local.failure = Some((i, g.record.clone(), f));
                                        }
                                        if !stop.swap(true, Ordering::Relaxed) {
                                            let (_, c, f) = local.failure.as_ref().unwrap();
                                            let path = write_replay(root, property, facet, i, &f.msg, &f.msg, &[], c);
                                            let _ = std::fs::write(found_path(root, property.id), path);
                                        }
                                    }
                                }
                            }
                        }
                        note(w, 0);
                        let mut s = stats.lock().unwrap();
                        s.cases += local.cases;
                        s.evals += local.evals;
                        s.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.labels {
                            *s.labels.entry(k).or_insert(0) += v;
                        }
                        s.samples.extend(local.samples);
                        for (k, v) in local.known {
                            let e = s.known.entry(k).or_insert((0, v.1));
                            e.0 += v.0;
                        }
                        if let Some(f) = local.failure {
                            if s.failure.as_ref().map_or(true, |(j, ..)| f.0 < *j) {
                                s.failure = Some(f);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let stats = stats.into_inner().unwrap();
        timed_out |= late.load(Ordering::Relaxed);
        println!(
            "{} {}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s{}",
            property.id,
            facet.name,
            stats.cases,
            stats.evals,
            stats.nontrivial.len(),
            t0.elapsed().as_secs_f64(),
            if stats.failure.is_some() { " FAILED" } else { "" }
        );
        let failed = stats.failure.is_some();
        all.push((facet, stats));
        if failed {
            break;
        }
    }

    // Report
    let mut violations = 0;
    let mut lines = Vec::new();
    for (facet, stats) in &all {
        for (sig, (n, msg)) in &stats.known {
            lines.push(format!(
                "KNOWN-FINDING: property={} {} ({} cases; {})",
                property.id, sig, n, msg
            ));
        }
        if let Some((case, choices, failure)) = &stats.failure {
            violations += 1;
            println!("{} {}: case {} fails: {}", property.id, facet.name, case, failure.msg);
            let (min, min_failure, tries) = shrink(facet, choices.clone(), failure.clone(), &known);
            let mut g = Gen::replay(min.clone());
            g.want_describe = true;
            let _ = run_case(facet, &mut g);
            println!(
                "{} {}: shrunk from {} to {} choices in {} runs: {}",
                property.id,
                facet.name,
                choices.len(),
                min.len(),
                tries,
                min_failure.msg
            );
            for d in &g.description {
                println!("  input: {}", d);
            }
            let path = write_replay(&root, property, facet, *case, &failure.msg, &min_failure.msg, &g.description, &min);
            lines.push(format!("VIOLATION property={} replay={}", property.id, path));
        }
    }

    // Evidence
    let evaluations: u64 = all.iter().map(|(_, s)| s.evals).sum();
    let nontrivial: usize = all.iter().map(|(_, s)| s.nontrivial.len()).sum();
    let mut samples = Vec::new();
    let mut facets = Vec::new();
    for (facet, s) in &all {
        let mut ss = s.samples.clone();
        ss.sort();
        for (_, d) in ss.iter().take(2) {
            let mut d = format!("{}: {}", facet.name, d);
            if d.len() > 700 {
                let mut cut = 700;
                while !d.is_char_boundary(cut) {
                    cut -= 1;
                }
                d.truncate(cut);
                d.push_str("...");
            }
            samples.push(d);
        }
        facets.push(format!(
            "{{\"facet\": {}, \"cases\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"labels\": {{{}}}}}",
            json::quote(facet.name),
            s.cases,
            s.evals,
            s.nontrivial.len(),
            s.labels
                .iter()
                .map(|(k, v)| format!("{}: {}", json::quote(k), v))
                .collect::<Vec<_>>()
                .join(", ")
        ));
    }
    let evidence = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"stopped_by_time_limit\": {},\n  \"facets\": [\n   {}\n  ],\n  \"samples\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json::quote(property.id),
        json::quote(if thorough { "thorough" } else { "quick" }),
        seed,
        evaluations,
        nontrivial,
        json::quote(property.rule),
        timed_out,
        facets.join(",\n   "),
        json::strings(&samples),
        json::strings(&property.assumptions.iter().map(|s| (*s).to_string()).collect::<Vec<_>>()),
        start.elapsed().as_secs_f64(),
        violations
    );
    let dir = format!("{}/evidence", root);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, property.id), evidence) {
        println!("cannot write evidence: {}", e);
        return 2;
    }
    for l in &lines {
        println!("{}", l);
    }
    if violations > 0 {
        1
    } else {
        println!(
            "{}: held on {} evaluations ({} distinct non-trivial) in {:.1}s",
            property.id,
            evaluations,
            nontrivial,
            start.elapsed().as_secs_f64()
        );
        0
    }
}
