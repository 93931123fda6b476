//! C16: the accounting allocator.
use std::{
    alloc::{GlobalAlloc, Layout},
    cell::RefCell,
    sync::{Arc, Barrier},
};
use vpbt::{ensure, ensure_eq, fail, no_panic, CaseResult, Facet, Gen, Property};
use zkp_logging_allocator::LoggingAllocator;

thread_local! {
    static LINES: RefCell<Vec<(log::Level, String)>> = RefCell::new(vec![]);
}

struct Capture;
impl log::Log for Capture {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().contains("logging_allocator")
    }

    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            LINES.with(|l| l.borrow_mut().push((r.level(), format!("{}", r.args()))));
        }
    }

    fn flush(&self) {}
}
static CAPTURE: Capture = Capture;

pub fn install_logger() {
    let _ = log::set_logger(&CAPTURE);
    log::set_max_level(log::LevelFilter::Trace);
}

fn take_lines() -> Vec<(log::Level, String)> {
    LINES.with(|l| std::mem::replace(&mut *l.borrow_mut(), vec![]))
}

#[derive(Default, Debug, Clone)]
struct Model {
    allocated: u128,
    peak:      u128,
    total:     u128,
    largest:   u128,
    number:    u128,
}

impl Model {
    fn alloc(&mut self, n: usize) {
        self.allocated += n as u128;
        self.total += n as u128;
        self.number += 1;
        self.peak = self.peak.max(self.allocated);
        self.largest = self.largest.max(n as u128);
    }

    fn free(&mut self, n: usize) {
        self.allocated -= n as u128;
    }

    fn check(&self, a: &LoggingAllocator, log: &[String]) -> CaseResult {
        let tail = &log[log.len().saturating_sub(12)..];
        ensure_eq!(a.allocated() as u128, self.allocated, "allocated after {:?}", tail);
        ensure_eq!(a.total_allocated() as u128, self.total, "total_allocated after {:?}", tail);
        ensure_eq!(a.num_allocations() as u128, self.number, "num_allocations after {:?}", tail);
        ensure_eq!(a.largest_allocated() as u128, self.largest, "largest_allocated after {:?}", tail);
        ensure_eq!(a.peak_allocated() as u128, self.peak, "peak_allocated after {:?}", tail);
        Ok(())
    }
}

fn size(g: &mut Gen) -> usize {
    match g.below(8) {
        0 | 1 => g.usize_in(1, 64),
        2 => g.usize_in(1, 4096),
        3 => g.usize_in(1, 100_000),
        4 => *g.pick(&[999_999, 1_000_000, 1_000_001, 9_999_999, 10_000_000, 99_999_999, 100_000_000]),
        5 => g.usize_in(1_000_000, 20_000_000),
        6 => 999_998_800 + g.usize_in(0, 1300),
        _ => 1 << g.below(31),
    }
}

/// "12.3 MB" -> bytes, for each size in the text.
fn sizes_in(text: &str) -> Vec<(f64, String)> {
    let words: Vec<&str> = text.split(|c: char| c == ' ' || c == '(' || c == ')' || c == ',').collect();
    let mut out = vec![];
    for w in words.windows(2) {
        let unit = match w[1].trim_end_matches('.') {
            "B" => 1.0,
            "kB" => 1e3,
            "MB" => 1e6,
            "GB" => 1e9,
            "TB" => 1e12,
            _ => continue,
        };
        if let Ok(x) = w[0].parse::<f64>() {
            out.push((x * unit, w.join(" ")));
        }
    }
    out
}

fn near(shown: f64, true_value: u128) -> bool {
    let t = true_value as f64;
    (shown - t).abs() <= 0.006 * t + 0.5
}

fn unit_ok(shown: &str, true_value: u128) -> bool {
    let v: f64 = shown.split(' ').next().unwrap().parse().unwrap_or(-1.0);
    if shown.ends_with("TB") {
        v >= 0.999
    } else if shown.ends_with(" B") {
        true_value < 1000
    } else {
        v >= 0.999 && v <= 1000.5
    }
}

fn show(text: &str, want: &[u128]) -> CaseResult {
    let got = sizes_in(text);
    ensure_eq!(got.len(), want.len(), "sizes shown in {:?}", text);
    for ((v, s), w) in got.iter().zip(want) {
        ensure!(near(*v, *w), "{:?} shows {:?} for {} bytes", text, s, w);
        ensure!(unit_ok(s, *w), "{:?} shows {:?} for {} bytes: wrong unit", text, s, w);
    }
    Ok(())
}

/// What an allocation of this size must have logged.
fn logged(n: usize, before: u128) -> CaseResult {
    let lines = take_lines();
    if n < 1_000_000 {
        ensure!(lines.is_empty(), "a small allocation of {} is logged: {:?}", n, lines);
    } else {
        ensure_eq!(lines.len(), 1, "log lines of an allocation of {}", n);
        let level = if n < 10_000_000 {
            log::Level::Info
        } else if n < 100_000_000 {
            log::Level::Warn
        } else {
            log::Level::Error
        };
        ensure_eq!(lines[0].0, level, "log level of an allocation of {}", n);
        show(&lines[0].1, &[n as u128, before])?;
    }
    Ok(())
}

fn history(g: &mut Gen) -> CaseResult {
    let a = LoggingAllocator::new();
    let mut m = Model::default();
    let mut live: Vec<(*mut u8, Layout, u8)> = vec![];
    let mut log: Vec<String> = vec![];
    let steps = g.usize_in(1, 30);
    let _ = take_lines();
    let result = (|| {
        for step in 0..steps {
            let op = g.below(8);
            let fill = step as u8 | 1;
            match op {
                0 | 1 | 2 | 3 => {
                    let zeroed = op == 3;
                    let huge = g.one_in(15);
                    let n = if huge {
                        *g.pick(&[1_000_000_000_000_usize, 2_000_000_000_000, 1 << 45])
                    } else if zeroed {
                        let most = if g.one_in(12) { 12_000_000 } else { 300_000 };
                        size(g).min(most)
                    } else if g.one_in(20) {
                        // the system may or may not provide this
                        *g.pick(&[20_000_000_000_usize, 300_000_000_000, 999_999_999_999])
                    } else {
                        size(g)
                    };
                    let layout = match Layout::from_size_align(n, 1 << if g.one_in(8) { g.below(14) } else { g.below(7) }) {
                        Ok(l) => l,
                        Err(_) => continue,
                    };
                    let before = m.allocated;
                    log.push(format!("alloc{} {}", if zeroed { "_zeroed" } else { "" }, n));
                    // the layout is not of size zero
                    let p = match no_panic(|| unsafe {
                        if zeroed {
                            a.alloc_zeroed(layout)
                        } else {
                            a.alloc(layout)
                        }
                    }) {
                        Ok(p) => p,
                        Err(e) => return fail(format!("alloc of {} bytes: {}", n, e)),
                    };
                    g.label_if(n >= 1_000_000, "logged allocation");
                    logged(n, before)?;
                    if huge {
                        ensure!(p.is_null(), "an allocation of {} is granted", n);
                        g.label("refused");
                    }
                    if !p.is_null() {
                        m.alloc(n);
                        ensure_eq!(p as usize % layout.align(), 0, "alignment");
                        unsafe {
                            if zeroed {
                                for i in 0..n {
                                    ensure_eq!(*p.add(i), 0, "byte {} of zeroed memory", i);
                                }
                            }
                            // touch both ends only: large blocks are mapped lazily
                            *p = fill;
                            *p.add(n - 1) = fill;
                        }
                        live.push((p, layout, fill));
                    }
                }
                4 | 5 | 6 => {
                    if live.is_empty() {
                        continue;
                    }
                    let i = g.below(live.len() as u64) as usize;
                    let (p, l, f) = live.swap_remove(i);
                    log.push(format!("dealloc {}", l.size()));
                    unsafe {
                        ensure!(*p == f && *p.add(l.size() - 1) == f, "memory of a block was overwritten");
                        a.dealloc(p, l);
                    }
                    m.free(l.size());
                    if !live.is_empty() {
                        g.nontrivial();
                    }
                }
                _ => {
                    if live.is_empty() {
                        continue;
                    }
                    let i = g.below(live.len() as u64) as usize;
                    let (p, l, f) = live[i];
                    if l.size() > 30_000_000 {
                        continue;
                    }
                    let huge = g.one_in(8);
                    let most = if g.one_in(12) { 12_000_000 } else { 3_000_000 };
                    let n = if huge { *g.pick(&[1_000_000_000_000_usize, 1 << 45]) } else { size(g).min(most) };
                    let before = m.allocated;
                    log.push(format!("realloc {} to {}", l.size(), n));
                    let q = match no_panic(|| unsafe { a.realloc(p, l, n) }) {
                        Ok(q) => q,
                        Err(e) => return fail(format!("realloc to {} bytes: {}", n, e)),
                    };
                    logged(n, before)?;
                    if huge {
                        // refused: the old block stays as it is
                        ensure!(q.is_null(), "a reallocation to {} is granted", n);
                        unsafe {
                            ensure!(*p == f && *p.add(l.size() - 1) == f, "memory of a block after a refused reallocation");
                        }
                        g.label("refused reallocation");
                        m.check(&a, &log)?;
                        continue;
                    }
                    if q.is_null() {
                        return fail(format!("realloc to {} fails", n));
                    }
                    ensure_eq!(q as usize % l.align(), 0, "alignment after realloc");
                    unsafe {
                        ensure_eq!(*q, f, "first byte after realloc");
                        if n > l.size() {
                            ensure_eq!(*q.add(l.size() - 1), f, "last old byte after realloc");
                        }
                        *q.add(n - 1) = f;
                    }
                    live[i] = (q, Layout::from_size_align(n, l.align()).unwrap(), f);
                    // a new block, then the release of the old one
                    m.alloc(n);
                    m.free(l.size());
                    g.label("realloc");
                }
            }
            m.check(&a, &log)?;
        }
        a.log_statistics();
        let lines = take_lines();
        ensure_eq!(lines.len(), 1, "statistics lines");
        show(&lines[0].1, &[m.total, m.allocated, m.largest])?;
        Ok(())
    })();
    g.describe(|| format!("{:?}", log));
    for (p, l, _) in live {
        unsafe { std::alloc::System.dealloc(p, l) };
    }
    result
}

/// Sizes are shown in the right unit, over the whole range.
fn display(g: &mut Gen) -> CaseResult {
    // the shown size of the total is steered by allocating and releasing untouched blocks
    let a = LoggingAllocator::new();
    let n = match g.below(6) {
        0 => g.usize_in(1, 2000),
        1 => 10_usize.pow(g.below(10) as u32) - g.usize_in(0, 1),
        2 => 10_usize.pow(g.usize_in(3, 9) as u32) - g.below(2000).min(900) as usize,
        3 => g.usize_in(1, 3_000_000_000),
        4 => (1 << g.below(33)) + g.usize_in(0, 3),
        _ => 999_990_000 + g.usize_in(0, 20_000),
    }
    .max(1);
    let l = Layout::from_size_align(n, 1).unwrap();
    let times = *g.pick(&[1_u64, 1, 1, 1, 10, 100, 1000]);
    g.describe(|| format!("{} x {}", times, n));
    g.nontrivial();
    let mut granted = 0_u128;
    let mut any = false;
    for _ in 0..times {
        let r = no_panic(|| unsafe { a.alloc(l) });
        match r {
            Ok(p) if p.is_null() => {}
            Ok(p) => {
                unsafe { a.dealloc(p, l) };
                granted += n as u128;
                any = true;
            }
            Err(e) => return fail(format!("alloc of {} with {} allocated in total: {}", n, granted, e)),
        }
        if n >= 1_000_000 {
            let lines = take_lines();
            ensure_eq!(lines.len(), 1, "lines");
            show(&lines[0].1, &[n as u128, 0])?;
        }
    }
    let r = no_panic(|| a.log_statistics());
    if let Err(e) = r {
        return fail(format!("statistics with a total of {}: {}", granted, e));
    }
    let lines = take_lines();
    ensure_eq!(lines.len(), 1, "lines");
    show(&lines[0].1, &[granted, 0, if any { n as u128 } else { 0 }])
}

fn threads(g: &mut Gen) -> CaseResult {
    let t = g.usize_in(2, 6);
    let rounds = g.usize_in(1, 40);
    let a = Arc::new(LoggingAllocator::new());
    let barrier = Arc::new(Barrier::new(t));
    let plans: Vec<Vec<usize>> = (0..t).map(|_| (0..rounds).map(|_| g.usize_in(1, 5000)).collect()).collect();
    let keep: Vec<usize> = (0..t).map(|_| g.usize_in(1, 8)).collect();
    g.describe(|| format!("{} threads, {} rounds", t, rounds));
    g.nontrivial();
    let handles: Vec<_> = (0..t)
        .map(|i| {
            let (a, b, plan, keep) = (a.clone(), barrier.clone(), plans[i].clone(), keep[i]);
            std::thread::spawn(move || {
                let mut live: Vec<(usize, Layout)> = vec![];
                let mut own = Model::default();
                let _ = b.wait();
                for n in plan {
                    let l = Layout::from_size_align(n, 8).unwrap();
                    if n % 5 == 0 && !live.is_empty() {
                        let at = n / 5 % live.len();
                        let (p, old) = live[at];
                        let q = unsafe { a.realloc(p as *mut u8, old, n) };
                        own.alloc(n);
                        own.free(old.size());
                        live[at] = (q as usize, l);
                        continue;
                    }
                    let p = unsafe {
                        if n % 5 == 1 {
                            a.alloc_zeroed(l)
                        } else {
                            a.alloc(l)
                        }
                    };
                    own.alloc(n);
                    live.push((p as usize, l));
                    if live.len() > keep {
                        let (p, l) = live.remove(0);
                        own.free(l.size());
                        unsafe { a.dealloc(p as *mut u8, l) };
                    }
                }
                // everything kept is live at the same moment here
                let _ = b.wait();
                let at_barrier = own.allocated;
                let _ = b.wait();
                for (p, l) in live {
                    own.free(l.size());
                    unsafe { a.dealloc(p as *mut u8, l) };
                }
                (own, at_barrier)
            })
        })
        .collect();
    let mut total = Model::default();
    let (mut sum_peak, mut max_peak, mut together) = (0, 0, 0);
    for hd in handles {
        let (own, b) = hd.join().map_err(|_| vpbt::Failure {
            msg: "a thread panicked".into(),
            sig: None,
        })?;
        total.total += own.total;
        total.number += own.number;
        total.largest = total.largest.max(own.largest);
        sum_peak += own.peak;
        max_peak = own.peak.max(max_peak);
        together += b;
    }
    ensure_eq!(a.allocated(), 0, "allocated after releasing everything");
    ensure_eq!(a.total_allocated() as u128, total.total, "total over {} threads", t);
    ensure_eq!(a.num_allocations() as u128, total.number, "number over {} threads", t);
    ensure_eq!(a.largest_allocated() as u128, total.largest, "largest over {} threads", t);
    let peak = a.peak_allocated() as u128;
    ensure!(
        peak >= together && peak >= max_peak && peak <= sum_peak,
        "peak {} must be at least {} (live at the same time) and {} (one thread's), at most {}",
        peak,
        together,
        max_peak,
        sum_peak
    );
    Ok(())
}

/// Few threads allocate at the same instant, over and over, each time with
/// fresh counters: every figure is then exactly known.
fn race(g: &mut Gen) -> CaseResult {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let t = g.usize_in(2, 3);
    let rounds = 400_usize;
    let sizes: Vec<Vec<usize>> = (0..t).map(|_| (0..rounds).map(|_| g.usize_in(1, 600)).collect()).collect();
    g.describe(|| format!("{} threads, {} rounds", t, rounds));
    g.nontrivial();
    let allocators: Arc<Vec<LoggingAllocator>> = Arc::new((0..rounds).map(|_| LoggingAllocator::new()).collect());
    let arrived = Arc::new(AtomicUsize::new(0));
    let handles: Vec<_> = (0..t)
        .map(|i| {
            let (all, arrived, sizes) = (allocators.clone(), arrived.clone(), sizes[i].clone());
            std::thread::spawn(move || {
                let mut live = vec![];
                for (round, n) in sizes.into_iter().enumerate() {
                    let l = Layout::from_size_align(n, 8).unwrap();
                    let _ = arrived.fetch_add(1, SeqCst);
                    let mut spins = 0_u32;
                    while arrived.load(SeqCst) < (round + 1) * t {
                        spins += 1;
                        if spins > 2000 {
                            std::thread::yield_now();
                        }
                    }
                    live.push((unsafe { all[round].alloc(l) } as usize, l));
                }
                live
            })
        })
        .collect();
    let mut live = vec![];
    for hd in handles {
        live.push(hd.join().map_err(|_| vpbt::Failure {
            msg: "a thread panicked".into(),
            sig: None,
        })?);
    }
    let mut result = Ok(());
    for (round, a) in allocators.iter().enumerate() {
        let sum: usize = sizes.iter().map(|s| s[round]).sum();
        let max: usize = sizes.iter().map(|s| s[round]).max().unwrap_or(0);
        let got = (a.allocated(), a.total_allocated(), a.peak_allocated(), a.largest_allocated(), a.num_allocations());
        let want = (sum, sum, sum, max, t);
        if got != want && result.is_ok() {
            result = fail(format!(
                "{} simultaneous allocations of {:?}: (allocated, total, peak, largest, number) is {:?}, not {:?}",
                t,
                sizes.iter().map(|s| s[round]).collect::<Vec<_>>(),
                got,
                want
            ));
        }
        for l in &live {
            unsafe { a.dealloc(l[round].0 as *mut u8, l[round].1) };
        }
        if a.allocated() != 0 && result.is_ok() {
            result = fail("allocated after releasing everything");
        }
    }
    result
}

pub fn property() -> Property {
    Property {
        id: "C16",
        rule: "histories that release a block while others are live; every display and thread case",
        assumptions: &[
            "a reallocation is a new allocation followed by a release",
            "thread interleavings are those the scheduler produces",
        ],
        facets: vec![
            Facet::new("history", 50_000, 600_000, history),
            Facet::new("display", 6_000, 200_000, display),
            Facet::new("threads", 1_500, 20_000, threads).serial(),
            Facet::new("race", 1_500, 40_000, race).serial(),
        ],
    }
}
