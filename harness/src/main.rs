mod campaign;
mod idl;
mod model;
mod monitor;
mod observe;
mod oracle;
mod rng;
mod special;
mod svm;
mod wire;
mod workload;
mod world;

use monitor::{Stats, Viol};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// program output goes to /dev/null, ours to the original stdout
struct Out(i32);
impl Out {
    fn line(&self, s: &str) {
        let mut d = s.as_bytes().to_vec();
        d.push(b'\n');
        let mut i = 0;
        while i < d.len() {
            let n = unsafe { libc::write(self.0, d[i..].as_ptr() as *const _, d.len() - i) };
            if n <= 0 {
                break;
            }
            i += n as usize;
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// where results go; run_check.sh sets it to its own folder
fn home() -> String {
    std::env::var("PHX_HOME").unwrap_or_else(|_| "/verif".into())
}

struct Known {
    prop: usize,
    sig: String,
}

fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", home())).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: property=C") {
            if let Some((p, sig)) = r.split_once(' ') {
                if let Ok(p) = p.parse() {
                    v.push(Known { prop: p, sig: sig.trim().to_string() });
                }
            }
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: phxmon check <Cnn> <quick|thorough> | phxmon case <Cnn> <seed> <case>");
        std::process::exit(2);
    }
    let prop: usize = match args[2].trim_start_matches('C').parse() {
        Ok(p) if (1..monitor::NP).contains(&p) => p,
        _ => {
            eprintln!("unknown property {}", args[2]);
            std::process::exit(2);
        }
    };
    let out = Out(unsafe { libc::dup(1) });
    unsafe {
        let d = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(d, 1);
    }
    svm::install();
    if std::env::var("LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if args[1] == "case" {
        let seed: u64 = args[3].parse().unwrap();
        let case: u64 = args[4].parse().unwrap();
        let w = campaign::run_case(prop, seed, case, true);
        for v in &w.s.viol {
            let ps: Vec<String> = (1..monitor::NP).filter(|i| v.props >> i & 1 == 1).map(|i| format!("C{:02}", i)).collect();
            out.line(&format!("step {} {:?}: {}", v.step, ps, v.msg));
        }
        out.line(&format!("{} steps, {} violations", w.s.stats.steps, w.s.viol.len()));
        std::process::exit(if w.s.viol.iter().any(|v| v.props >> prop & 1 == 1) { 1 } else { 0 });
    }
    let thorough = args.get(3).map(|x| x == "thorough").unwrap_or(false);
    std::process::exit(check(prop, thorough, &out));
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    found: Mutex<Vec<(u64, Viol)>>,
    other: AtomicU64,
    broken: Mutex<Vec<String>>,
    stats: Mutex<Stats>,
    /// what each worker is doing: case + 1 and since when
    busy: Vec<(AtomicU64, AtomicU64)>,
}

fn check(prop: usize, thorough: bool, out: &Out) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let n = std::env::var("PHX_CASES").ok().and_then(|x| x.parse().ok()).unwrap_or(campaign::plan(prop, thorough).cases);
    let limit = Duration::from_secs(std::env::var("PHX_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 560 } else { 150 }));
    let workers = std::env::var("PHX_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let t0 = Instant::now();
    let kn = known();
    let _ = std::fs::create_dir_all(format!("{}/work", home()));
    let sh = Arc::new(Shared {
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        found: Mutex::new(vec![]),
        other: AtomicU64::new(0),
        broken: Mutex::new(vec![]),
        stats: Mutex::new(Stats::new()),
        busy: (0..workers).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect(),
    });
    let mut hs = vec![];
    for wk in 0..workers {
        let sh = sh.clone();
        let kn: Vec<String> = kn.iter().filter(|k| k.prop == prop).map(|k| k.sig.clone()).collect();
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut st = Stats::new();
                svm::WORKER.with(|w| w.set(wk));
                loop {
                    if sh.stop.load(SeqCst) || t0.elapsed() > limit {
                        break;
                    }
                    let case = sh.next.fetch_add(1, SeqCst);
                    if case >= n {
                        break;
                    }
                    sh.busy[wk].1.store(t0.elapsed().as_secs(), SeqCst);
                    sh.busy[wk].0.store(case + 1, SeqCst);
                    let _ = std::fs::write(format!("{}/work/current-C{:02}.{}", home(), prop, wk), format!("seed {} case {}\n", seed, case));
                    let r = std::panic::catch_unwind(|| {
                        let mut w = campaign::run_case(prop, seed, case, false);
                        let s = std::mem::replace(&mut w.s.stats, Stats::new());
                        (s, std::mem::take(&mut w.s.viol))
                    });
                    sh.busy[wk].0.store(0, SeqCst);
                    match r {
                        Err(e) => {
                            let m = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            sh.broken.lock().unwrap().push(format!("case {}: {}", case, m));
                        }
                        Ok((mut s, v)) => {
                            s.cases += 1;
                            st.merge(s);
                            let mut hit = false;
                            for x in v {
                                if x.props >> prop & 1 == 1 {
                                    let first = x.msg.lines().next().unwrap_or("").to_string();
                                    if !kn.iter().any(|k| first.contains(k)) {
                                        hit = true;
                                    }
                                    sh.found.lock().unwrap().push((case, x));
                                } else {
                                    sh.other.fetch_add(1, SeqCst);
                                }
                            }
                            if hit {
                                sh.stop.store(true, SeqCst);
                            }
                        }
                    }
                }
                sh.stats.lock().unwrap().merge(st);
            })
            .unwrap();
        hs.push(h);
    }
    // watch for executions that do not end
    let mut stuck = None;
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_secs();
        let ms = svm::now_ms();
        for (i, (c, since)) in sh.busy.iter().enumerate() {
            let c = c.load(SeqCst);
            let at = svm::SINCE[i].load(SeqCst);
            // a single instruction takes less than a millisecond as a rule
            if c > 0 && at > 0 && ms.saturating_sub(at) > 60_000 {
                stuck = Some((c - 1, true));
            } else if c > 0 && now.saturating_sub(since.load(SeqCst)) > 300 && stuck.is_none() {
                stuck = Some((c - 1, false));
            }
        }
        if stuck.is_some() {
            break;
        }
    }
    let mut st = std::mem::replace(&mut *sh.stats.lock().unwrap(), Stats::new());
    let mut found = std::mem::take(&mut *sh.found.lock().unwrap());
    let broken = std::mem::take(&mut *sh.broken.lock().unwrap());
    found.sort_by_key(|(c, v)| (*c, v.step));
    let mut seen_known = std::collections::BTreeSet::new();
    let mut fresh = vec![];
    for (case, v) in found {
        let first = v.msg.lines().next().unwrap_or("").to_string();
        match kn.iter().find(|k| k.prop == prop && first.contains(&k.sig)) {
            Some(k) => {
                seen_known.insert(k.sig.clone());
            }
            None => fresh.push((case, v)),
        }
    }
    let id = format!("C{:02}", prop);
    for k in kn.iter().filter(|k| k.prop == prop) {
        out.line(&format!("KNOWN-FINDING: property={} {}{}", id, k.sig, if seen_known.contains(&k.sig) { "" } else { " (not met in this run)" }));
    }
    for wk in 0..workers {
        let _ = std::fs::remove_file(format!("{}/work/current-C{:02}.{}", home(), prop, wk));
    }
    let wall = t0.elapsed().as_secs_f64();
    let tier = if thorough { "thorough" } else { "quick" };
    st.extra.insert("violations attributed to other properties only".into(), sh.other.load(SeqCst));
    write_evidence(&id, prop, tier, seed, wall, n, &st, fresh.len(), broken.len());
    out.line(&format!(
        "{}: {} cases, {} instructions executed ({} ok, {} refused), {} observations relevant, {} distinct, {:.1} s",
        id,
        st.cases,
        st.steps,
        st.ok,
        st.failed,
        st.evals[prop],
        st.sigs[prop].len(),
        wall
    ));
    if let Some((case, v)) = fresh.first() {
        let _ = std::fs::create_dir_all(format!("{}/work", home()));
        let path = format!("{}/work/{}-seed{}-case{}.txt", home(), id, seed, case);
        let body = format!(
            "property: {}\nreplay: bash /verif/run_check.sh {} case {} {}\n\n{}\n",
            id, id, seed, case, v.msg
        );
        let _ = std::fs::File::create(&path).and_then(|mut f| f.write_all(body.as_bytes()));
        for l in v.msg.lines().take(3) {
            out.line(l);
        }
        out.line(&format!("VIOLATION property={} replay={}", id, path));
        return 1;
    }
    if let Some((cs, inside)) = stuck {
        if inside {
            let _ = std::fs::create_dir_all(format!("{}/work", home()));
            let path = format!("{}/work/{}-seed{}-case{}.txt", home(), id, seed, cs);
            let _ = std::fs::write(&path, format!("property: {}\nan instruction of case {} does not end\nreplay: bash /verif/run_check.sh {} case {} {}\n", id, cs, id, seed, cs));
            out.line(&format!("an instruction of case {} was still executing after 60 s", cs));
            out.line(&format!("VIOLATION property={} replay={}", id, path));
            return 1;
        }
        out.line(&format!("inconclusive: case {} does not end", cs));
        return 3;
    }
    if !broken.is_empty() {
        out.line(&format!("inconclusive: harness failed in {} cases: {}", broken.len(), broken[0]));
        return 3;
    }
    if st.evals[prop] == 0 || st.sigs[prop].is_empty() {
        out.line("inconclusive: nothing relevant was observed");
        return 3;
    }
    out.line(&format!("{} held on everything explored", id));
    0
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(id: &str, prop: usize, tier: &str, seed: u64, wall: f64, planned: u64, st: &Stats, viol: usize, broken: usize) {
    let mut o = String::new();
    o.push_str(&format!("{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n", id, tier, seed));
    o.push_str(" \"coverage\": {\n");
    o.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", st.evals[prop], st.sigs[prop].len()));
    o.push_str(&format!(
        "  \"rule\": {},\n",
        esc("Evaluations are executed instructions (or, for client views and size classes, comparisons) in which this property had something to constrain. Two count as distinct if they differ in instruction kind, outcome, the reasons the oracle gives for a refusal, the set of model features exercised (fills, partial fills, self trades, expiries, evictions, amendments, budget and match limits, free-funds use, several log batches, ...), market status or packet kind.")
    ));
    let s: Vec<String> = st.samples[prop].iter().map(|x| esc(x)).collect();
    o.push_str(&format!("  \"samples\": [{}],\n", if s.is_empty() { esc("none") } else { s.join(", ") }));
    o.push_str(&format!(
        "  \"cases_planned\": {}, \"cases_run\": {}, \"instructions\": {}, \"succeeded\": {}, \"refused\": {}, \"cross_program_calls\": {}, \"log_batches\": {}, \"most_batches_in_one_instruction\": {}, \"outcome_not_predicted\": {}, \"harness_failures\": {},\n",
        planned, st.cases, st.steps, st.ok, st.failed, st.cpis, st.batches, st.max_batches, st.unknown, broken
    ));
    let names = monitor::FEATURES;
    let f: Vec<String> = names.iter().enumerate().filter(|(i, _)| st.feats[*i] > 0).map(|(i, n)| format!("{}: {}", esc(n), st.feats[i])).collect();
    o.push_str(&format!("  \"features\": {{{}}},\n", f.join(", ")));
    let mp = |m: &std::collections::BTreeMap<String, u64>| -> String { m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ") };
    o.push_str(&format!("  \"instructions_by_outcome\": {{{}}},\n", mp(&st.ops)));
    o.push_str(&format!("  \"refusal_reasons\": {{{}}},\n", mp(&st.reasons)));
    let ev: std::collections::BTreeMap<String, u64> = st.events.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    o.push_str(&format!("  \"log_events\": {{{}}},\n", mp(&ev)));
    o.push_str(&format!("  \"other\": {{{}}}\n }},\n", mp(&st.extra)));
    o.push_str(&format!(
        " \"assumptions\": [{}],\n",
        esc("The in-memory runtime enforces the Solana account rules (ownership, signer and writable privileges, lamport conservation, rent exemption, atomicity); the SPL token program is the real processor.")
    ));
    o.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, viol));
    let _ = std::fs::create_dir_all(format!("{}/evidence", home()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", home(), id), o);
}
