//! Model checker for protofish. See ../../DESIGN.md.

mod b;
mod checks;
mod dec;
mod enc;
mod engine;
mod d08;
mod d09;
mod h01;
mod l01;
mod many;
mod mem;
mod model;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod syntax;
mod payload;
mod report;
mod schema;
mod wire;

use engine::*;
use std::collections::BTreeSet;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

#[global_allocator]
static ALLOC: h01::Alloc = h01::Alloc;

const MEMORY_LIMIT: u64 = 12 << 30;

fn map_slots(path: Option<&Path>) -> &'static [Slot]
{
    use std::os::fd::AsRawFd;
    let len = std::mem::size_of::<Slot>() * SLOTS;
    // PROT_READ | PROT_WRITE, MAP_SHARED (1) or MAP_PRIVATE | MAP_ANONYMOUS.
    let ptr = unsafe {
        match path {
            Some(path) => {
                let f = std::fs::OpenOptions::new()
                    .read(true)
                    .write(true)
                    .create(true)
                    .truncate(false)
                    .open(path)
                    .expect("slots file");
                f.set_len(len as u64).expect("slots file");
                mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0)
            }
            None => mmap(std::ptr::null_mut(), len, 3, 0x22, -1, 0),
        }
    };
    assert!(ptr as isize != -1, "mmap failed");
    unsafe { std::slice::from_raw_parts(ptr as *const Slot, SLOTS) }
}

fn usage() -> !
{
    eprintln!(
        "usage: mc check PROPERTY quick|thorough\n       mc replay FILE\n       mc only PROPERTY quick|thorough SPACE"
    );
    std::process::exit(EXIT_ERROR)
}

fn tier(s: &str) -> Tier
{
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    }
}

pub fn verif_dir() -> PathBuf
{
    match std::env::var_os("MC_VERIF") {
        Some(d) => PathBuf::from(d),
        None => PathBuf::from("/verif"),
    }
}

fn main()
{
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match args.as_slice() {
        ["zygote"] => h01::zygote(),
        ["version"] => println!("mc {}", env!("CARGO_PKG_VERSION")),
        ["check", prop, t] => supervise(prop, t),
        ["child", prop, t, slots] => child(prop, tier(t), Mode::Explore, Some(Path::new(slots))),
        ["only", prop, t, space] => {
            child(prop, tier(t), Mode::Only(space.to_string()), None)
        }
        ["case", prop, t, space, choices @ ..] => {
            let choices = choices.iter().map(|c| c.parse().unwrap()).collect();
            let space = space.parse().unwrap_or_else(|_| Runner::space_id(space));
            child(prop, tier(t), Mode::Replay { space, choices }, None)
        }
        ["replay", file] => {
            let r = report::read_replay(Path::new(file));
            let mode = Mode::Replay {
                space: r.space,
                choices: r.choices,
            };
            child(&r.property, tier(&r.tier), mode, None)
        }
        _ => usage(),
    }
}

/// Runs the check in a child process, so that it may crash.
fn supervise(prop: &str, t: &str)
{
    let start = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    // A case that was only slow gets more time in the second attempt.
    for factor in [1, 5] {
        attempt(&exe, prop, t, factor, start);
    }
    eprintln!("the crash was not reproduced");
    std::process::exit(EXIT_ERROR);
}

/// Ends the process unless the check ended in a way that is not reproduced by a single case.
fn attempt(exe: &Path, prop: &str, t: &str, factor: u64, start: Instant)
{
    let slots_file = std::env::temp_dir().join(format!("mc-slots-{}-{}", prop, std::process::id()));
    let _ = std::fs::remove_file(&slots_file);
    let slots = map_slots(Some(&slots_file));
    let status = Command::new(exe)
        .arg("child")
        .arg(prop)
        .arg(t)
        .arg(&slots_file)
        .env("MC_PATIENCE", factor.to_string())
        .status();
    let _ = std::fs::remove_file(&slots_file);
    let status = status.expect("child");
    match status.code() {
        Some(code) if code != EXIT_HANG => std::process::exit(code),
        _ => {}
    }

    // The child crashed or hung. Find the case that does that on its own.
    eprintln!("check ended with {:?}, looking for the case", status);
    let mut suspects = vec![];
    for slot in slots {
        use std::sync::atomic::Ordering;
        let busy = slot.busy.load(Ordering::Relaxed);
        if busy != 0 {
            let len = slot.len.load(Ordering::Relaxed) as usize;
            let choices: Vec<u32> = slot.choices[..len].iter().map(|c| c.get()).collect();
            suspects.push((busy, slot.space.load(Ordering::Relaxed), choices));
        }
    }
    suspects.sort_by(|a, b| b.0.cmp(&a.0));
    for (_, space, choices) in suspects {
        let mut cmd = Command::new(exe);
        cmd.env("MC_PATIENCE", "2");
        cmd.arg("case").arg(prop).arg(t).arg(space.to_string());
        cmd.args(choices.iter().map(|c| c.to_string()));
        cmd.stdout(Stdio::null()).stderr(Stdio::null());
        let mut c = cmd.spawn().expect("case");
        let begin = Instant::now();
        let what = loop {
            if let Some(status) = c.try_wait().expect("wait") {
                break match (status.signal(), status.code()) {
                    (Some(s), _) => Some(format!("the process ended with signal {}", s)),
                    (_, Some(EXIT_HANG)) => Some(format!("no result within {} s", HANG_SECS)),
                    (_, Some(1)) => Some("violation (see replay)".to_string()),
                    _ => None,
                };
            }
            if begin.elapsed() > Duration::from_secs(3 * HANG_SECS) {
                let _ = c.kill();
                let _ = c.wait();
                break Some(format!("no result within {} s", 3 * HANG_SECS));
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        if let Some(what) = what {
            let replay = report::write_replay(prop, t, space, "", &choices, &what);
            report::crash_evidence(prop, t, &what, start.elapsed().as_secs_f64());
            println!("{}", what);
            println!("VIOLATION property={} replay={}", prop, replay.display());
            std::process::exit(1);
        }
    }
}

fn child(prop: &str, tier: Tier, mode: Mode, slots: Option<&Path>)
{
    unsafe {
        // RLIMIT_AS, RLIMIT_CORE
        setrlimit(9, &[MEMORY_LIMIT, MEMORY_LIMIT]);
        setrlimit(4, &[0, 0]);
    }
    install_panic_hook();
    let start = Instant::now();
    let slots = map_slots(slots);
    watchdog(slots);
    let known_keys: BTreeSet<String> = report::known_findings(prop)
        .into_iter()
        .map(|f| f.key)
        .collect();
    let threads = std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
        })
        .clamp(1, SLOTS);
    let cap = match tier {
        Tier::Quick => 400,
        Tier::Thorough => 780,
    };
    let exploring = matches!(mode, Mode::Explore);
    let replaying = matches!(mode, Mode::Replay { .. });
    let mut r = Runner {
        property: prop.to_string(),
        tier,
        threads,
        mode,
        slots,
        known_keys,
        total: St::default(),
        spaces: vec![],
        found: None,
        deadline: start + Duration::from_secs(cap),
        replayed: false,
        verbose: true,
    };
    if !checks::run(prop, &mut r) {
        eprintln!("unknown property {}", prop);
        std::process::exit(EXIT_ERROR);
    }
    let wall = start.elapsed().as_secs_f64();
    if replaying {
        if let Some(f) = &r.found {
            println!("reproduced in {}: {}", f.space, f.viol.msg);
            std::process::exit(1);
        }
        if !r.replayed {
            eprintln!("no such space");
            std::process::exit(EXIT_ERROR);
        }
        println!("the case holds");
        std::process::exit(0);
    }
    let t = match tier {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    };
    if exploring {
        report::evidence(prop, t, &r, wall);
    }
    println!(
        "{} {}: {} cases, {} executions compared, {} model steps, {} distinct states, {} distinct transitions, {:.1} s",
        prop, t, r.total.evals, r.total.traces, r.total.steps, r.total.states.len(), r.total.edges.len(), wall
    );
    for f in report::known_findings(prop) {
        if let Some((n, msg)) = r.total.known.get(&f.key) {
            println!(
                "KNOWN-FINDING: property={} {} [{} cases, e.g. {}]",
                prop, f.text, n, msg.replace('\n', " ")
            );
        }
    }
    if let Some(f) = &r.found {
        let replay = report::write_replay(
            prop,
            t,
            Runner::space_id(&f.space),
            &f.space,
            &f.choices,
            &f.viol.msg,
        );
        println!("in {}: {}", f.space, f.viol.msg);
        println!("VIOLATION property={} replay={}", prop, replay.display());
        std::process::exit(1);
    }
    std::process::exit(0);
}

