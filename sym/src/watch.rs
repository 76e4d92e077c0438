//! Supervision of the exploring process: crashes, endless loops and runaway memory of the tested code are caught from
//! outside. Every worker thread keeps the inputs of the path it is on in a shared file; when the process dies or a
//! worker stops making progress, those inputs are run natively in a process of their own, under a time and memory
//! limit. A native run that does not end, or that dies, is a violation; anything else is not.
use crate::engine::*;
use crate::term::Val;
use std::io::Read;
use std::os::fd::AsRawFd;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
const SLOT: usize = 1 << 18;
pub const SLOTS: usize = 64;
#[repr(C)]
struct Head {
    /// counts path starts and decisions
    beat: AtomicU64,
    /// the thread waits for the solver
    solver: AtomicU32,
    /// 1: asks for a native run of this path; 2: answered, the run was fine
    ask: AtomicU32,
    harness: AtomicU32,
    len: AtomicU32,
}
static BASE: OnceLock<usize> = OnceLock::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! { static MINE: Option<usize> = BASE.get().and_then(|b| { let i = NEXT.fetch_add(1, SeqCst); if i < SLOTS { Some(b + i * SLOT) } else { None } }); }

fn map(file: &str) -> Option<usize> {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(file).ok()?;
    f.set_len((SLOT * SLOTS) as u64).ok()?;
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT * SLOTS, 3, 1, f.as_raw_fd(), 0) };
    if p as isize == -1 { None } else { Some(p as usize) }
}
fn head(b: usize) -> &'static Head { unsafe { &*(b as *const Head) } }
fn mine() -> Option<&'static Head> { MINE.with(|m| m.map(head)) }

/// called in the exploring process
pub fn attach(file: &str) { if let Some(b) = map(file) { let _ = BASE.set(b); } }
pub fn beat() { if let Some(h) = mine() { h.beat.fetch_add(1, SeqCst); } }
pub fn solver(on: bool) { if let Some(h) = mine() { h.solver.store(on as u32, SeqCst); h.beat.fetch_add(1, SeqCst); } }
pub fn crumb(harness: usize, model: impl Iterator<Item = Option<Val>>) {
    let Some(b) = MINE.with(|m| *m) else { return };
    let h = head(b);
    let mut n = std::mem::size_of::<Head>();
    h.len.store(0, SeqCst);
    let put = |tag: u8, x: i128, y: i128, n: &mut usize| {
        if *n + 33 > SLOT { return false; }
        unsafe {
            let p = (b + *n) as *mut u8;
            *p = tag;
            std::ptr::copy_nonoverlapping(x.to_le_bytes().as_ptr(), p.add(1), 16);
            std::ptr::copy_nonoverlapping(y.to_le_bytes().as_ptr(), p.add(17), 16);
        }
        *n += 33;
        true
    };
    let mut k = 0;
    for v in model {
        let ok = match v {
            None => put(0, 0, 0, &mut n),
            Some(Val::B(x)) => put(1, x as i128, 0, &mut n),
            Some(Val::I(x)) => put(2, x as i128, 0, &mut n),
            Some(Val::Q(x, y)) => put(3, x, y, &mut n),
            Some(Val::F(x)) => put(4, x.to_bits() as i128, 0, &mut n),
        };
        if !ok { return; }
        k += 1;
    }
    h.harness.store(harness as u32 + 1, SeqCst);
    h.len.store(k + 1, SeqCst);
    h.beat.fetch_add(1, SeqCst);
}
/// Waits for the verdict of a native run of the current path (never returns when that run shows a violation).
pub fn suspect() {
    let Some(h) = mine() else { return };
    h.ask.store(1, SeqCst);
    while h.ask.load(SeqCst) == 1 { std::thread::sleep(Duration::from_millis(20)); }
    h.ask.store(0, SeqCst);
}

fn read(b: usize) -> Option<(usize, Model)> {
    let h = head(b);
    let k = h.len.load(SeqCst);
    let hi = h.harness.load(SeqCst);
    if k == 0 || hi == 0 { return None; }
    let mut m = vec![];
    let mut n = std::mem::size_of::<Head>();
    for _ in 0..k - 1 {
        let (tag, x, y) = unsafe {
            let p = (b + n) as *const u8;
            let mut a = [0u8; 16];
            let mut c = [0u8; 16];
            std::ptr::copy_nonoverlapping(p.add(1), a.as_mut_ptr(), 16);
            std::ptr::copy_nonoverlapping(p.add(17), c.as_mut_ptr(), 16);
            (*p, i128::from_le_bytes(a), i128::from_le_bytes(c))
        };
        m.push(match tag { 1 => Some(Val::B(x == 1)), 2 => Some(Val::I(x as _)), 3 => Some(Val::Q(x, y)), 4 => Some(Val::F(f64::from_bits(x as u64))), _ => None });
        n += 33;
    }
    Some((hi as usize - 1, m))
}

pub enum Outcome { Exit(i32), Bad { harness: String, values: Vec<String>, model: Model, what: String } }

/// Native run in a process of its own; what went wrong, if the code neither returned nor panicked in an orderly way.
fn probe(h: &Harness, m: &Model, secs: u64) -> Option<String> {
    let f = std::env::temp_dir().join(format!("vsym-probe-{}-{:?}.json", std::process::id(), Instant::now()).replace([' ', '{', '}', ':'], "_"));
    let vals: Vec<String> = m.iter().map(|v| format!("\"{}\"", val_s(v))).collect();
    std::fs::write(&f, format!("{{\n \"harness\": \"{}\",\n \"inputs\": [{}]\n}}\n", h.name, vals.join(", "))).ok()?;
    let exe = std::env::current_exe().ok()?;
    let mut c = Command::new("sh");
    c.arg("-c").arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" --replay \"$1\"").arg(exe).arg(&f).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut ch = c.spawn().ok()?;
    let t0 = Instant::now();
    let r = loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                let mut o = String::new();
                if let Some(mut p) = ch.stdout.take() { let _ = p.read_to_string(&mut o); }
                break match s.code() {
                    Some(1) => Some(o.lines().find_map(|l| l.strip_prefix("reproduced: ")).unwrap_or("fails").to_string()),
                    Some(0) | Some(2) => None,
                    _ => Some(format!("the process dies ({})", s)),
                };
            }
            Ok(None) if t0.elapsed() > Duration::from_secs(secs) => { let _ = ch.kill(); let _ = ch.wait(); break Some(format!("no end after {} s", secs)); }
            Ok(None) => std::thread::sleep(Duration::from_millis(10)),
            Err(_) => break None,
        }
    };
    let _ = std::fs::remove_file(&f);
    r
}

/// Runs this program again as the exploring process and watches it.
pub fn supervise(hs: &[Harness], hard: Duration) -> Outcome {
    let file = std::env::temp_dir().join(format!("vsym-crumbs-{}", std::process::id()));
    let base = file.to_str().and_then(map);
    let Some(base) = base else { return Outcome::Exit(2) };
    let mut ch = match Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1)).env("VSYM_CRUMBS", &file).spawn() {
        Ok(c) => c,
        Err(_) => return Outcome::Exit(2),
    };
    let t0 = Instant::now();
    let mut last = [(0u64, Instant::now()); SLOTS];
    let bad = |(hi, m): (usize, Model), what: String| Outcome::Bad { harness: hs[hi].name.clone(), values: m.iter().map(val_s).collect(), model: m, what };
    let mut first = true;
    let r = loop {
        if !first { std::thread::sleep(Duration::from_millis(20)); }
        first = false;
        if let Ok(Some(s)) = ch.try_wait() {
            if let Some(c) = s.code() { if c <= 2 { break Outcome::Exit(c); } }
            println!("the exploring process died ({}), running its last paths natively", s);
            let mut r = Outcome::Exit(2);
            for i in 0..SLOTS {
                if let Some((hi, m)) = read(base + i * SLOT) {
                    if hi >= hs.len() { continue; }
                    if let Some(w) = probe(&hs[hi], &m, 30) { r = bad((hi, m), w); break; }
                }
            }
            break r;
        }
        let mut found = None;
        for i in 0..SLOTS {
            let h = head(base + i * SLOT);
            if h.ask.load(SeqCst) == 1 {
                if let Some((hi, m)) = read(base + i * SLOT) {
                    if let Some(w) = probe(&hs[hi], &m, 30) { found = Some(bad((hi, m), w)); break; }
                }
                h.ask.store(2, SeqCst);
                continue;
            }
            let b = h.beat.load(SeqCst);
            if b != last[i].0 || h.solver.load(SeqCst) == 1 || h.len.load(SeqCst) == 0 { last[i] = (b, Instant::now()); continue; }
            if last[i].1.elapsed() > Duration::from_secs(40) {
                if let Some((hi, m)) = read(base + i * SLOT) {
                    if let Some(w) = probe(&hs[hi], &m, 30) { found = Some(bad((hi, m), w)); break; }
                }
                last[i].1 = Instant::now() + Duration::from_secs(3600);
            }
        }
        if found.is_none() && rss(ch.id()) > 22 << 30 {
            println!("the exploring process uses too much memory");
            let _ = ch.kill();
            continue;
        }
        if found.is_none() && t0.elapsed() > hard { println!("INCONCLUSIVE: the exploration does not end"); found = Some(Outcome::Exit(2)); }
        if let Some(f) = found { let _ = ch.kill(); let _ = ch.wait(); break f; }
    };
    let _ = std::fs::remove_file(&file);
    r
}
fn rss(pid: u32) -> u64 {
    std::fs::read_to_string(format!("/proc/{}/statm", pid)).ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096
}
