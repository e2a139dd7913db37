mod api;
#[cfg(feature = "token")]
#[allow(non_snake_case)]
mod card;
mod certgen;
mod dict;
#[cfg(feature = "token")]
mod hid;
#[cfg(feature = "token")]
mod p_hid;
mod ecx;
mod keys;
mod log;
mod p_allow;
mod p_build;
mod p_cert;
mod p_fido;
mod p_priv;
mod p_misc;
mod p_pub;
mod p_sig;
#[cfg(feature = "token")]
mod p_token;
mod p_wire;
mod refs;
mod rng;
mod scen;
mod watch;
mod wire;
mod why;
mod p_why;

#[global_allocator]
static ALLOC: watch::Watching = watch::Watching;

use log::Sess;
use rng::Rng;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

type Gen = fn(&mut Rng, &dict::Dict) -> Sess;
fn generator(p: &str) -> Option<Gen> {
    Some(match p {
        "C01" => p_cert::c01,
        "C02" => p_cert::c02,
        "C03" => p_build::c03,
        "C04" => p_build::c04,
        "C05" => p_sig::c05,
        "C06" => p_sig::c06,
        "C07" => p_sig::c07,
        "C08" => p_pub::c08,
        "C09" => p_priv::c09,
        "C10" => p_priv::c10,
        "C11" => p_priv::c11,
        "C12" => p_allow::c12,
        "C13" => p_allow::c13,
        "C14" => p_allow::c14,
        "C15" => p_wire::c15,
        "C16" => p_wire::c16,
        "C17" => p_misc::c17,
        "C18" => p_fido::c18,
        "C19" => p_fido::c19,
        "C20" => p_fido::c20,
        "C21" => p_fido::c21,
        "C22" => p_fido::c22,
        "C23" => p_misc::c23,
        "C25" => p_misc::c25,
        "C26" => p_misc::c26,
        "C24" => p_wire::c24,
        "C27" => p_build::c27,
        "C30" => p_why::c30,
        #[cfg(feature = "token")]
        "C28" => p_token::c28,
        #[cfg(feature = "token")]
        "C29" => p_hid::c29,
        _ => return None,
    })
}
pub struct Opt {
    pub prop: String,
    pub seed: u64,
    pub sessions: usize,
    pub keep: usize,
    pub out: String,
    pub secs: u64,
    pub threads: usize,
    pub keep_scen: usize,
}

fn run(o: &Opt, d: &dict::Dict, gen: Gen, scen: &[scen::Scen]) -> i32 {
    let ns = scen.len();
    // for measurements: long inputs in every session
    let huge = std::env::var("VERIF_HUGE").is_ok();
    // an even sample of the scenarios is validated besides those out of line
    let step = (ns / o.keep_scen.max(1)).max(1);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let kept: Mutex<Vec<(usize, Sess)>> = Mutex::new(vec![]);
    let sus: Mutex<Vec<(usize, Sess)>> = Mutex::new(vec![]);
    let (calls, sessions, evs) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let t0 = std::time::Instant::now();
    let free0 = std::sync::OnceLock::<u64>::new();
    let free0 = &free0;
    let nsus = AtomicUsize::new(0);
    let nask = AtomicUsize::new(0);
    let hang = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..o.threads {
            let (next, stop, kept, sus, calls, sessions, evs, nsus, nask) = (&next, &stop, &kept, &sus, &calls, &sessions, &evs, &nsus, &nask);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        api::supervise(t, &format!("{}/pend.{t}", o.out));
                        why::note_all(o.prop == "C30");
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= o.sessions + ns || stop.load(Ordering::Relaxed) || (i >= o.keep + ns && {
                                // the rest has a time of its own, however long the scenarios took
                                let free = *free0.get_or_init(|| t0.elapsed().as_secs());
                                t0.elapsed().as_secs() >= o.secs.max(free + o.secs * 3 / 4)
                            }) {
                                break;
                            }
                            let mut r = Rng::new(o.seed.wrapping_mul(0x1000003).wrapping_add((i as u64).wrapping_sub(ns as u64)).wrapping_mul(0x9E3779B97F4A7C15));
                            r.big = huge || i >= o.keep + ns && i % 4 == 0;
                            let s = match catch_unwind(AssertUnwindSafe(|| if i < ns { scen::replay(&scen[i], &mut r, d) } else { gen(&mut r, d) })) {
                                Ok(s) => s,
                                Err(e) => {
                                    let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                                    let mut s = Sess::new();
                                    s.push("crash", &[("session", i.to_string()), ("what", log::q(&msg))]);
                                    s.sus = true;
                                    s
                                }
                            };
                            sessions.fetch_add(1, Ordering::Relaxed);
                            calls.fetch_add(s.calls, Ordering::Relaxed);
                            evs.fetch_add(s.ev.len(), Ordering::Relaxed);
                            if s.sus {
                                let mut g = sus.lock().unwrap();
                                nsus.fetch_add(1, Ordering::Relaxed);
                                // of too many, the smallest
                                if g.len() < 300 {
                                    g.push((i, s));
                                } else if let Some(m) = (0..g.len()).max_by_key(|j| g[*j].1.size()) {
                                    if g[m].1.size() > s.size() {
                                        g[m] = (i, s);
                                    }
                                }
                                if nsus.load(Ordering::Relaxed) >= 5000 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            } else if s.ask && nask.fetch_add(1, Ordering::Relaxed) < 150 || (i < ns && i % step == 0) || (i >= ns && i < ns + o.keep) {
                                kept.lock().unwrap().push((i, s));
                            }
                        }
                    })
                    .unwrap(),
            );
        }
        // watchdog: an operation that does not come back
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            let now = api::now_ms();
            for t in 0..o.threads {
                let st = api::STARTED[t].load(Ordering::Relaxed);
                if st != 0 && now > st + 60_000 {
                    hang.store(true, Ordering::Relaxed);
                    eprintln!("HANG thread {t}");
                    std::process::exit(3);
                }
            }
        }
    });
    let mut kept = kept.into_inner().unwrap();
    let mut sus = sus.into_inner().unwrap();
    kept.sort_by_key(|x| x.0);
    sus.sort_by_key(|x| x.1.size());
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/trace.ndjson", o.out)).unwrap());
    let mut first = std::io::BufWriter::new(std::fs::File::create(format!("{}/first.ndjson", o.out)).unwrap());
    for (_, s) in sus.iter().take(16) {
        writeln!(first, "{}", s.line()).unwrap();
    }
    first.flush().unwrap();
    let mut events = 0;
    let mut ids = vec![];
    for (i, s) in sus.iter().chain(kept.iter()) {
        if s.ev.is_empty() {
            continue;
        }
        writeln!(f, "{}", s.line()).unwrap();
        events += s.ev.len();
        ids.push(*i);
    }
    f.flush().unwrap();
    let st = serde_json::json!({
        "property": o.prop, "seed": o.seed, "sessions_run": sessions.load(Ordering::Relaxed), "calls": calls.load(Ordering::Relaxed),
        "scenarios": ns, "events_run": evs.load(Ordering::Relaxed), "suspicious": nsus.load(Ordering::Relaxed), "undecided": nask.load(Ordering::Relaxed), "sessions_kept": ids.len(), "events_kept": events,
        "states": events + ids.len(), "secs": t0.elapsed().as_secs_f64(), "ids": ids, "why": sus.iter().take(5).map(|x| (x.0, x.1.why.clone())).collect::<Vec<_>>(),
        "new_literals": d.new_ints.len() + d.new_strs.len() + d.new_blobs.len(),
    });
    std::fs::write(format!("{}/stats.json", o.out), st.to_string()).unwrap();
    for t in 0..o.threads {
        let _ = std::fs::remove_file(format!("{}/pend.{t}", o.out));
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let g = |k: &str, dflt: &str| -> String { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(dflt.to_string()) };
    let root = g("--root", "/verif");
    let repo = g("--repo", "/repo");
    if a.get(1).map(|x| x == "child").unwrap_or(false) {
        std::panic::set_hook(Box::new(|_| {}));
        keys::load(&format!("{root}/fixtures/keys.json"));
        p_fido::load(&format!("{root}/fixtures/yubico.json"));
        match a[4].as_str() {
            "draw" => p_misc::draw_main(a[5].parse().unwrap(), a[6].parse().unwrap()),
            _ => {
                let _ = api::SCRATCH.set(format!("{}/{}", a[8], std::process::id()));
                std::fs::create_dir_all(api::SCRATCH.get().unwrap()).unwrap();
                p_misc::ask_main(&a[5], a[6].parse().unwrap(), a[7].parse().unwrap());
                let _ = std::fs::remove_dir_all(api::SCRATCH.get().unwrap());
            }
        }
        return;
    }
    let _ = p_misc::ROOT.set(root.clone());
    let d = dict::Dict::load(&repo, &format!("{root}/fixtures/literals.json"));
    if a.get(1).map(|x| x == "literals").unwrap_or(false) {
        println!("{}", d.json());
        return;
    }
    keys::load(&format!("{root}/fixtures/keys.json"));
    p_fido::load(&format!("{root}/fixtures/yubico.json"));
    if std::env::var("HARNESS_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let o = Opt {
        prop: a.get(1).cloned().unwrap_or_default(),
        seed: g("--seed", "1").parse().unwrap(),
        sessions: g("--sessions", "100").parse().unwrap(),
        keep: g("--keep", "100").parse().unwrap(),
        out: g("--out", "/tmp/harness-out"),
        secs: g("--secs", "20").parse().unwrap(),
        threads: g("--threads", "8").parse().unwrap(),
        keep_scen: g("--keep_scen", "150").parse().unwrap(),
    };
    std::fs::create_dir_all(&o.out).unwrap();
    let scratch = format!("{}/scratch", o.out);
    std::fs::create_dir_all(&scratch).unwrap();
    let _ = api::SCRATCH.set(scratch);
    let zf = g("--zone", "");
    if !zf.is_empty() {
        let z: Vec<(i64, i64)> = serde_json::from_str(&std::fs::read_to_string(&zf).expect("zone")).expect("zone");
        let _ = p_allow::ZONE.set(z);
    }
    match generator(&o.prop) {
        Some(gen) => std::process::exit(run(&o, &d, gen, &scen::load(&g("--scen", "")))),
        None => {
            eprintln!("unknown property");
            std::process::exit(2)
        }
    }
}
