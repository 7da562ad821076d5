#![cfg_attr(rcsv_sim, feature(sanitize, thread_local))]
#![cfg_attr(rcsv_sim, sanitize(thread = "off"))]
mod alloc;
mod conc;
mod extreme;
mod fam;
mod inject;
mod items;
#[cfg(rcsv_sim)]
mod litmus;
mod reent;
mod report;
mod rng;
mod seq;
mod sim;
mod tags;
mod traits;
mod world;

#[cfg(not(any(miri, rcsv_noshadow)))]
#[global_allocator]
static GLOBAL: alloc::Shadow = alloc::Shadow;

pub fn now() -> f64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64()
}

#[cfg(not(miri))]
fn cpu() -> f64 {
    #[repr(C)]
    struct Ts { s: i64, n: i64 }
    extern "C" { fn clock_gettime(id: i32, t: *mut Ts) -> i32; }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(2, &mut t); }
    t.s as f64 + t.n as f64 * 1e-9
}

/// An operation that has burnt this much processor time without returning
/// never will: the longest legitimate one takes a few milliseconds.
#[cfg(not(miri))]
const STUCK_CPU_SECS: f64 = 20.0;

/// Are all threads but the calling one blocked (neither running nor waiting for a processor)?
#[cfg(not(miri))]
fn all_asleep() -> bool {
    let Ok(dir) = std::fs::read_dir("/proc/self/task") else { return false };
    let me = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|n| n.to_owned()));
    for t in dir.flatten() {
        if Some(t.file_name()) == me { continue; }
        let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { return false };
        if !s[s.rfind(')').unwrap_or(0)..].starts_with(") S") { return false; }
    }
    true
}

#[cfg(not(miri))]
fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut since, mut asleep) = (u64::MAX, 0.0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let cur = world::OPCTR.load(std::sync::atomic::Ordering::Relaxed);
            let t = cpu();
            if cur != last { last = cur; since = t; asleep = 0; continue; }
            // Nothing outside the process will ever wake a sleeping thread of this one
            asleep = if cur > 0 && all_asleep() { asleep + 1 } else { 0 };
            if cur > 0 && (t - since > STUCK_CPU_SECS || asleep > 80) {
                let tags = world::CUR_TAGS.load(std::sync::atomic::Ordering::Relaxed) as u32;
                let f = tags::Fail { kind: "HANG", tags: tags | tags::c(16), msg: if asleep > 80 { "all threads wait for each other".into() } else { format!("an operation used {} s of processor time without returning", STUCK_CPU_SECS) } };
                report::fail(&f, "hang", "", "", 0, "");
                std::process::exit(3);
            }
        }
    });
}

/// The same under the interpreter, where spurious failures of weak operations
/// and weak memory can make an operation spin for ever.
#[cfg(miri)]
fn miri_watchdog(stop: &'static std::sync::atomic::AtomicBool) -> Option<std::thread::JoinHandle<()>> {
    use std::sync::atomic::Ordering::*;
    std::env::var("RCSV_WATCH").ok()?;
    let cpu = || -> u64 {
        let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
        let f: Vec<&str> = s[s.rfind(')').map_or(0, |i| i + 2)..].split(' ').collect();
        f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) // user time in ticks of 1/100 s
    };
    Some(std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, 0);
        while !stop.load(Acquire) {
            std::thread::sleep(std::time::Duration::from_millis(400));
            let cur = world::OPCTR.load(Relaxed);
            if cur != last { last = cur; since = cpu(); continue; }
            if cur > 0 && cpu() > since + 100 * 25 {
                let tags = world::CUR_TAGS.load(Relaxed) as u32;
                report::fail(&tags::Fail { kind: "HANG", tags: tags | tags::c(16), msg: "an operation interpreted for 25 s of processor time didn't return".into() }, "hang", "", "", 0, "");
                std::process::exit(3);
            }
        }
    }))
}

fn main() {
    std::panic::set_hook(Box::new(|i| { if std::env::var("RCSV_PANICS").is_ok() { eprintln!("{}", i); } }));
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    #[cfg(not(miri))]
    watchdog();
    #[cfg(miri)]
    static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    #[cfg(miri)]
    let dog = miri_watchdog(&STOP);
    match arg(1).as_str() {
        // seq FAM ITEM PROFILE SEED COUNT MAX_OPS MAX_LEN SECS
        "seq" => seq::run(&seq::Args { fam: arg(2), item: arg(3), prof: arg(4), seed: num(5), count: num(6), max_ops: num(7) as usize, max_len: num(8) as usize, secs: arg(9).parse().unwrap_or(0.0) }),
        // conc THEME SEED COUNT REPS SECS [exact]
        "conc" => conc::stress(&arg(2), num(3), num(4), num(5).max(1), arg(6).parse().unwrap_or(0.0), false, arg(7) == "exact"),
        // inj THEME SEED COUNT REPS SECS [exact]: preempted at chosen instructions
        "inj" => conc::stress(&arg(2), num(3), num(4), num(5).max(1), arg(6).parse().unwrap_or(0.0), true, arg(7) == "exact"),
        // sim THEME SEED COUNT REPS SECS [exact]: threads simulated on one
        "sim" => conc::simulate(&arg(2), num(3), num(4), num(5).max(1), arg(6).parse().unwrap_or(0.0), arg(7) == "exact"),
        #[cfg(rcsv_sim)]
        "litmus" => litmus::run(),
        // concfew THEME SEED COUNT SECS [exact]
        "concfew" => conc::few(&arg(2), num(3), num(4), arg(5).parse().unwrap_or(0.0), arg(6) == "exact"),
        // reent FAM SEED COUNT MAX_OPS SECS [exact]
        "reent" => reent::run(&arg(2), num(3), num(4), num(5) as usize, arg(6).parse().unwrap_or(0.0), arg(7) == "exact"),
        // extreme FAM ITEM SEED COUNT MAX_OPS SECS [exact]
        "extreme" => extreme::run(&arg(2), &arg(3), num(4), num(5), num(6) as usize, arg(7).parse().unwrap_or(0.0), arg(8) == "exact"),
        // traits FAM SEED COUNT SECS [exact]
        "traits" => traits::run(&arg(2), num(3), num(4), arg(5).parse().unwrap_or(0.0), arg(6) == "exact"),
        // show PROFILE SEED MAX_OPS MAX_LEN
        "show" => seq::show(&arg(2), num(3), num(4) as usize, num(5) as usize),
        "showconc" => println!("{}", conc::show(num(3), &arg(2))),
        // replay FAM ITEM FILE
        "replay" => { let t = if arg(4) == "-" { std::io::read_to_string(std::io::stdin()).unwrap() } else { std::fs::read_to_string(arg(4)).unwrap() }; std::process::exit(seq::replay(&arg(2), &arg(3), &t)) }
        x => { eprintln!("unknown command {:?}", x); std::process::exit(64) }
    }
    #[cfg(miri)]
    if let Some(d) = dog {
        STOP.store(true, std::sync::atomic::Ordering::Release);
        let _ = d.join();
    }
}
