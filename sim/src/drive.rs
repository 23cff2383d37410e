//! The check of a property: spreads the runs over worker processes, watches
//! them, and reports.

use std::collections::BTreeMap;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::exec::{self, Found};
use crate::gen;
use crate::progress::{self, Page};
use crate::props::{self, Rel};
use crate::replay::{self, dead, Past, STALL};
use crate::rng::mix;
use crate::step::*;
use crate::work::parse_found;
use crate::world::{Cls, Orc, Viol};
use crate::Args;

#[derive(Clone, Copy)]
/// Runs of a check per configuration, and wall clock limits.
struct Plan {
    runs: [u64; BUILDS],
    seconds: f64,
    set: usize,
}

struct Worker {
    config: u32,
    /// Which of the ways of executing runs that are compared.
    way: Way,
    child: Child,
    page: Page,
    out: String,
    by: u64,
    watch: progress::Watch,
    /// The first of its runs.
    from: u64,
    reverse: bool,
    end: Option<Result<(), Found>>,
}

/// Ways of executing the runs.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Way {
    Checked,
    Release,
    /// Checked, in another order and each run in its own thread.
    Apart,
}

const WAYS: usize = 3;

#[derive(Default)]
struct Sum {
    kv: BTreeMap<String, u64>,
    digests: Vec<BTreeMap<u64, String>>,
    samples: Vec<String>,
}

fn exe_of(a: &Args, config: u32) -> String {
    if config == crate::config() {
        std::env::current_exe().unwrap().to_str().unwrap().to_string()
    } else {
        a.str("other").to_string()
    }
}

const BUILDS: usize = crate::CONFIGS.len();

/// The directory that the check may write to; removed at the end.
struct Scratch(String);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone)]
struct Found2 {
    config: u32,
    run: u64,
    found: Found,
    /// The runs that the worker executed before.
    past: Past,
}

impl Found2 {
    fn new(w: &Worker, run: u64, found: Found) -> Self {
        if w.way == Way::Apart {
            // Blocks of 64, each from its end.
            let place = (run - w.from % w.by) / w.by % 64;
            let past = Past { by: -(w.by as i64), runs: 63 - place, tries: 1 };
            return Found2 { config: w.config, run, found, past };
        }
        let past = Past {
            by: if w.reverse { -(w.by as i64) } else { w.by as i64 },
            runs: w.from.abs_diff(run) / w.by,
            tries: 1,
        };
        Found2 { config: w.config, run, found, past }
    }
}

pub fn check(a: &Args) -> i32 {
    let start = Instant::now();
    let id = a.str("property").to_string();
    let Some(prop) = props::prop_no(&id) else {
        eprintln!("sim: no property {id}");
        return 2;
    };
    let seed = a.num("seed");
    let tier = a.str("tier").to_string();
    let thorough = tier == "thorough";
    let jobs = std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(2, 32);
    let seconds: f64 = a.opts.get("seconds").and_then(|v| v.parse().ok()).unwrap_or(if thorough { 600.0 } else { 45.0 });
    let scale: u64 = a.opts.get("runs").and_then(|v| v.parse().ok()).unwrap_or(if thorough { 40_000_000 } else { 240_000 });
    let plan = Plan {
        runs: [scale * 3 / 4, scale / 4, scale, scale],
        seconds,
        set: if thorough { 6_000_000 } else { 2_000_000 },
    };
    let dir = Scratch(format!("{}/check-{}-{}", a.str("scratch"), id, std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir.0) {
        eprintln!("sim: {}: {e}", dir.0);
        return 2;
    }
    // Three quarters of the workers run the checked build.
    let release = (jobs / 4).max(1);
    let mut workers: Vec<Worker> = Vec::new();
    let same = prop == props::SAME;
    let builds: &[(u32, Way, u64)] = match crate::meter::ON {
        true => &[(crate::config(), Way::Checked, jobs)],
        false if same => &[
            (0, Way::Checked, (jobs * 3 / 8).max(1)),
            (0, Way::Apart, (jobs * 3 / 8).max(1)),
            (1, Way::Release, release),
        ],
        false => &[(0, Way::Checked, jobs - release), (1, Way::Release, release)],
    };
    let digests = if same { u64::MAX } else { 200 };
    for &(config, way, n) in builds {
        for k in 0..n {
            match spawn(a, &dir.0, prop, seed, config, way, (k, n, plan.runs[config as usize]), &plan, digests, false) {
                Ok(w) => workers.push(w),
                Err(e) => {
                    eprintln!("sim: {e}");
                    return 2;
                }
            }
        }
    }
    let mut firsts: [Option<Found2>; BUILDS] = [const { None }; BUILDS];
    let mut errors: Vec<String> = Vec::new();
    let mut again: Vec<(u32, Way, u64, u64)> = Vec::new();
    let mut slow: Vec<(u32, Way, u64, u64)> = Vec::new();
    let mut deaths = 0;
    let mut sum = Sum {
        digests: vec![BTreeMap::new(); WAYS],
        ..Sum::default()
    };
    loop {
        let mut open = 0;
        for w in &mut workers {
            if w.end.is_some() {
                continue;
            }
            let Some(end) = poll(w) else {
                open += 1;
                continue;
            };
            match end {
                Err(e) => {
                    errors.push(e);
                    w.end = Some(Ok(()));
                }
                Ok(None) => {
                    w.end = Some(Ok(()));
                    if let Some((run, f)) = collect(w, &mut sum, true) {
                        note(&mut firsts, Found2::new(w, run, f));
                    }
                }
                Ok(Some(f)) => {
                    // Died or stalled.
                    let run = w.page.get(progress::RUN);
                    let _ = collect(w, &mut sum, true);
                    let mine = attribute_death(prop, seed, w.config, run, &f);
                    if mine && f.viol.msg.contains("come to an end") {
                        // Perhaps only slow.
                        let exe = exe_of(a, w.config);
                        let r = gen::generate(prop, gen::seed_of(seed, prop, w.config, run));
                        let path = format!("{}/slow.replay", dir.0);
                        // Alone, and behind the runs that came before.
                        let past = Found2::new(w, run, f.clone()).past;
                        let mut again = Ok(None);
                        for past in [Past::NONE, past] {
                            let text = text_for(w.config, &r, prop, seed, run, None, &[], &past);
                            again = std::fs::write(&path, text)
                                .map_err(|e| e.to_string())
                                .and_then(|()| replay::run_file(&exe, &path, STALL, false));
                            if !matches!(again, Ok(None)) {
                                break;
                            }
                        }
                        if let Ok(None) = again {
                            *sum.kv.entry("slow".into()).or_insert(0) += 1;
                            w.end = Some(Ok(()));
                            slow.push((w.config, w.way, run + w.by, w.by));
                            continue;
                        }
                    }
                    match mine {
                        true => note(&mut firsts, Found2::new(w, run, f)),
                        false => {
                            *sum.kv.entry("deaths".into()).or_insert(0) += 1;
                            deaths += 1;
                            again.push((w.config, w.way, run + w.by, w.by));
                        }
                    }
                    w.end = Some(Ok(()));
                }
            }
        }
        again.append(&mut slow);
        for (config, way, from, by) in again.drain(..) {
            // Not this property's business: go on behind it.
            let left = plan.seconds - start.elapsed().as_secs_f64();
            let to = plan.runs[config as usize];
            if from < to && left > 1.0 && deaths < 60 && firsts.iter().all(Option::is_none) {
                let p = Plan { seconds: left, ..plan };
                match spawn(a, &dir.0, prop, seed, config, way, (from, by, to), &p, if same { digests } else { 0 }, false) {
                    Ok(w) => workers.push(w),
                    Err(e) => errors.push(e),
                }
                open += 1;
            }
        }
        for w in &workers {
            if let Some(f) = &firsts[w.config as usize] {
                w.page.set(progress::STOP, f.run);
            } else if firsts.iter().any(Option::is_some) {
                // Something is wrong already, no need to go on.
                w.page.set(progress::STOP, 0);
            }
        }
        if open == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("sim: error: {e}");
        }
        return 2;
    }
    let worked = start.elapsed().as_secs_f64();
    let mut violation = None;
    let mut first = firsts.into_iter().flatten().next();
    let mut recheck = Again::default();
    if first.is_none() {
        let r = match same {
            true => Ok(compare(&workers, &sum)),
            false => same_again(a, &dir.0, prop, seed, &plan, &sum),
        };
        match r {
            Ok(r) => recheck = r,
            Err(e) => {
                eprintln!("sim: error: {e}");
                return 2;
            }
        }
        first = recheck.found.take();
    }
    if let Some(f) = first {
        match report(a, &dir.0, prop, &id, seed, &f) {
            Ok((path, found)) => violation = Some((path, Found2 { found, ..f })),
            Err(e) => {
                eprintln!("sim: error: {e}");
                return 2;
            }
        }
    }
    let cases = merged(&workers, "cases");
    let states = merged(&workers, "states");
    let ev = evidence(&Evidence {
        id: &id,
        prop,
        tier: &tier,
        seed,
        jobs,
        sum: &sum,
        cases,
        states,
        worked,
        wall: start.elapsed().as_secs_f64(),
        longest: workers.iter().fold(0.0, |m: f64, w| m.max(w.watch.longest)),
        recheck: &recheck,
        violation: violation.as_ref().map(|v| (v.0.as_str(), &v.1.found)),
    });
    if let Err(e) = std::fs::write(a.str("evidence"), ev) {
        eprintln!("sim: error: {e}");
        return 2;
    }
    let runs = sum.kv.get("runs").copied().unwrap_or(0);
    match violation {
        Some((path, f)) => {
            println!(
                "{id}: run {} of {runs}, step {}: {}: {}",
                f.run,
                f.found.step,
                f.found.viol.orc.name(),
                f.found.viol.msg
            );
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            let get = |k: &str| sum.kv.get(k).copied().unwrap_or(0);
            println!(
                "{id}: held in {runs} simulated runs ({} steps, {} cases, {} distinct) in {:.1} s; digests of {} runs reproduced",
                get("steps"),
                get("evals"),
                cases,
                start.elapsed().as_secs_f64(),
                recheck.same,
            );
            if recheck.other > 0 {
                println!("{id}: note: {} runs went another way in another process", recheck.other);
            }
            if get("foreign") + get("deaths") > 0 {
                println!(
                    "{id}: note: {} steps broke other properties",
                    get("foreign") + get("deaths")
                );
            }
            0
        }
    }
}

fn note(firsts: &mut [Option<Found2>; BUILDS], f: Found2) {
    let first = &mut firsts[f.config as usize];
    if first.as_ref().map_or(true, |g| f.run < g.run) {
        *first = Some(f);
    }
}

#[allow(clippy::too_many_arguments)]
fn spawn(
    a: &Args,
    dir: &str,
    prop: u32,
    seed: u64,
    config: u32,
    way: Way,
    (from, by, to): (u64, u64, u64),
    plan: &Plan,
    digests: u64,
    reverse: bool,
) -> Result<Worker, String> {
    let out = format!("{dir}/{way:?}-{from}-{}", u32::from(reverse));
    let page_path = format!("{out}.page");
    let page = Page::open(&page_path).map_err(|e| e.to_string())?;
    page.set(progress::STOP, u64::MAX);
    let mut cmd = Command::new(exe_of(a, config));
    if way == Way::Apart {
        cmd.args(["--apart", "1"]);
    }
    let child = cmd
        .args([
            "work".to_string(),
            "--prop".into(),
            prop.to_string(),
            "--seed".into(),
            seed.to_string(),
            "--from".into(),
            from.to_string(),
            "--by".into(),
            by.to_string(),
            "--to".into(),
            to.to_string(),
            "--seconds".into(),
            (plan.seconds as u64).to_string(),
            "--set".into(),
            plan.set.to_string(),
            "--digests".into(),
            digests.to_string(),
            "--reverse".into(),
            u32::from(reverse).to_string(),
            "--page".into(),
            page_path,
            "--out".into(),
            out.clone(),
        ])
        .stdin(Stdio::null())
        .stderr(std::fs::File::create(format!("{out}.err")).map_err(|e| e.to_string())?)
        .spawn()
        .map_err(|e| e.to_string())?;
    Ok(Worker {
        config,
        way,
        child,
        page,
        out,
        by,
        from: if reverse { to - 1 } else { from },
        reverse,
        watch: progress::Watch::new(),
        end: None,
    })
}

/// `None`: still at work. `Ok(Some)`: ended in the middle of a step.
fn poll(w: &mut Worker) -> Option<Result<Option<Found>, String>> {
    match w.child.try_wait() {
        Err(e) => return Some(Err(e.to_string())),
        Ok(Some(s)) if s.success() => return Some(Ok(None)),
        Ok(Some(s)) => {
            return Some(match s.code() {
                Some(c) => {
                    let err = std::fs::read_to_string(format!("{}.err", w.out)).unwrap_or_default();
                    Err(format!("a worker failed (exit {c}) in run {}: {err}", w.page.get(progress::RUN)))
                }
                None => {
                    if killed_from_outside(&s) {
                        Err("a worker was killed".into())
                    } else {
                        Ok(Some(dead(&w.page, "ends the process")))
                    }
                }
            })
        }
        Ok(None) => {}
    }
    if w.watch.stalled(&w.page, w.child.id(), STALL) {
        let _ = w.child.kill();
        let _ = w.child.wait();
        return Some(Ok(Some(dead(&w.page, "does not come to an end"))));
    }
    None
}

fn killed_from_outside(s: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    matches!(s.signal(), Some(9 | 15 | 2 | 1))
}

/// Reads the results of a worker.
fn collect(w: &Worker, sum: &mut Sum, add: bool) -> Option<(u64, Found)> {
    let text = std::fs::read_to_string(&w.out).unwrap_or_default();
    let mut found = None;
    if !add {
        return None;
    }
    if !text.ends_with("end 1\n") {
        // Ended early: only what the page says.
        *sum.kv.entry("runs".into()).or_insert(0) += w.page.get(progress::DONE);
        return None;
    }
    for l in text.lines() {
        let Some((k, v)) = l.split_once(' ') else { continue };
        match k {
            "digest" => {
                if let Some((i, d)) = v.split_once(' ') {
                    sum.digests[w.way as usize].insert(i.parse().unwrap_or(0), d.to_string());
                }
            }
            "sample" => sum.samples.push(v.replace('\u{1}', "\n")),
            "found" => {
                if let Some((i, f)) = v.split_once(' ') {
                    found = i.parse().ok().zip(parse_found(f));
                }
            }
            k if k == "max_nodes" || k == "stack" || k == "held" || k.starts_with("most:") => {
                let e = sum.kv.entry(k.into()).or_insert(0);
                *e = (*e).max(v.parse().unwrap_or(0));
            }
            _ => *sum.kv.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0),
        }
    }
    found
}

/// Whether a run's sudden end contradicts the property.
fn attribute_death(prop: u32, seed: u64, config: u32, run: u64, f: &Found) -> bool {
    let r = gen::generate(prop, gen::seed_of(seed, prop, config, run));
    props::relation(prop, &f.viol, r.id_kind) == Rel::Yes
}

/// What came of executing runs again.
#[derive(Default)]
struct Again {
    /// Runs that went the same way.
    same: u64,
    /// Runs that did not.
    other: u64,
    /// A run that violates the property only now.
    found: Option<Found2>,
}

/// Compares what the runs came to in the different ways of executing them.
fn compare(workers: &[Worker], sum: &Sum) -> Again {
    let mut r = Again::default();
    let first = &sum.digests[Way::Checked as usize];
    for (&run, d) in first {
        for way in [Way::Apart, Way::Release] {
            let Some(e) = sum.digests[way as usize].get(&run) else { continue };
            if d == e {
                r.same += 1;
                continue;
            }
            r.other += 1;
            if r.found.is_some() {
                continue;
            }
            // Any of the two may be the one with a past.
            let third = match way {
                Way::Apart => sum.digests[Way::Release as usize].get(&run),
                _ => sum.digests[Way::Apart as usize].get(&run),
            };
            let odd = if third == Some(e) { Way::Checked } else { way };
            let w = workers.iter().find(|w| w.way == odd && run >= w.from && (run - w.from) % w.by == 0);
            r.found = w.map(|w| {
                let viol = Viol {
                    orc: Orc::Same,
                    kind: Kind::New,
                    cls: Cls::Legal,
                    hist: 0,
                    faults: 0,
                    msg: format!("another result ({way:?})"),
                };
                Found2::new(w, run, Found { step: 0, digest: 0, why: "", viol })
            });
        }
    }
    r
}

/// Executes some of the runs again, in another process and in reverse order:
/// the digests must be the same.
fn same_again(
    a: &Args,
    dir: &str,
    prop: u32,
    seed: u64,
    plan: &Plan,
    sum: &Sum,
) -> Result<Again, String> {
    let mut r = Again::default();
    // (Of the metered builds, there is only one.)
    for way in [Way::Checked, Way::Release] {
        let config = if crate::meter::ON { crate::config() } else { way as u32 };
        let want = &sum.digests[way as usize];
        let to = (0..).find(|i| !want.contains_key(i)).unwrap_or(0);
        if to == 0 {
            continue;
        }
        let mut w = spawn(a, dir, prop, seed, config, way, (0, 1, to), plan, to, true)?;
        let end = loop {
            match poll(&mut w) {
                None => std::thread::sleep(Duration::from_millis(2)),
                Some(e) => break e?,
            }
        };
        let mut again = Sum {
            digests: vec![BTreeMap::new(); WAYS],
            ..Sum::default()
        };
        let found = match end {
            None => collect(&w, &mut again, true),
            Some(f) => {
                let run = w.page.get(progress::RUN);
                attribute_death(prop, seed, config, run, &f).then_some((run, f))
            }
        };
        if let Some((run, f)) = found {
            r.found = Some(Found2::new(&w, run, f));
            return Ok(r);
        }
        for (i, d) in &again.digests[way as usize] {
            let unsure = |d: &str| d.bytes().all(|b| b == b'0');
            let Some(w) = want.get(i) else { continue };
            if w == d || unsure(w) || unsure(d) {
                r.same += 1;
            } else {
                r.other += 1;
            }
        }
    }
    Ok(r)
}

/// Minimises a violation, writes the replay file and makes sure that it fails
/// exactly the same way in new processes.
fn report(a: &Args, dir: &str, prop: u32, id: &str, seed: u64, f: &Found2) -> Result<(String, Found), String> {
    let replays = a.str("replays");
    std::fs::create_dir_all(replays).map_err(|e| e.to_string())?;
    let exe = exe_of(a, f.config);
    let exes: Vec<String> = match crate::meter::ON {
        true => vec![exe.clone(); BUILDS],
        false => (0..2).map(|c| exe_of(a, c)).collect(),
    };
    let same = prop == props::SAME;
    let path = format!("{replays}/{id}-seed{seed}-c{}-run{}.replay", f.config, f.run);
    if f.found.viol.orc != Orc::Hang && !same {
        let page = Page::open(&format!("{dir}/small.page")).map_err(|e| e.to_string())?;
        let mut child = Command::new(&exe)
            .args(["small", "--prop", &prop.to_string(), "--seed", &seed.to_string()])
            .args(["--run", &f.run.to_string(), "--out", &path])
            .args(["--page", &format!("{dir}/small.page")])
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        // Otherwise a part of the run does not come to an end, or dies, or the
        // run alone does not fail.
        if let replay::End::Exit(s) = replay::watch(&mut child, &page, 8.0) {
            if s.success() && steady(&exes, &path)? {
                return Ok((path, f.found.clone()));
            }
        }
    }
    let start = Instant::now();
    let run = gen::generate(prop, gen::seed_of(seed, prop, f.config, f.run));
    let tmp = format!("{dir}/hang.replay");
    let stalls = f.found.viol.msg.contains("come to an end");
    let test = |r: &Run, past: &Past, stall: f64| {
        std::fs::write(&tmp, text_for(f.config, r, prop, seed, f.run, None, &[], past)).ok()?;
        replay::verdict(&exes, &tmp, stall, false).ok().flatten()
    };
    // What it takes for the run to fail, alone or behind other runs.
    let mut past = Past { runs: 0, ..f.past };
    let mut found = f.found.clone();
    let fails = loop {
        // Twice: it might be by chance.
        let mut again = || test(&run, &past, STALL).filter(|g| same || g.same(&f.found));
        if let Some(g) = again() {
            if stalls || again().is_some_and(|h| h.same(&g)) {
                found = g;
                break true;
            }
        }
        if past.runs == f.past.runs || start.elapsed().as_secs_f64() > 60.0 {
            break false;
        }
        past.runs = (past.runs * 2).max(1).min(f.past.runs);
    };
    let mut best = (run.clone(), found.clone(), 0);
    if fails {
        let seconds = if past.runs == 0 { 60.0 } else { 40.0 };
        let stall = if stalls { 2.0 } else { STALL };
        best = exec::minimise(&run, &found, if same { 400 } else { 100 }, seconds, |r| test(r, &past, stall));
    } else {
        past = Past { tries: 40, ..Past::NONE };
    }
    let text = |past: &Past| {
        let log = vec![format!(
            "{} of {} steps left after {} attempts",
            best.0.steps.len(),
            run.steps.len(),
            best.2
        )];
        text_for(f.config, &best.0, prop, seed, f.run, Some(&best.1), &log, past)
    };
    std::fs::write(&path, text(&past)).map_err(|e| e.to_string())?;
    if fails && !steady(&exes, &path)? {
        past.tries = 40;
        std::fs::write(&path, text(&past)).map_err(|e| e.to_string())?;
    }
    Ok((path, best.1))
}

/// Whether a run fails exactly as its file says, every time.
fn steady(exes: &[String], path: &str) -> Result<bool, String> {
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let Some(want) = replay::parse(&text).and_then(|r| r.found) else {
        return Ok(false);
    };
    let stalls = want.viol.msg.contains("come to an end");
    for _ in 0..if stalls { 1 } else { 2 } {
        match replay::verdict(exes, path, STALL, false)? {
            Some(got) if got.same(&want) && got.step == want.step && got.digest == want.digest => {}
            _ => return Ok(false),
        }
    }
    Ok(true)
}

#[allow(clippy::too_many_arguments)]
fn text_for(
    config: u32,
    run: &Run,
    prop: u32,
    seed: u64,
    no: u64,
    found: Option<&Found>,
    log: &[String],
    past: &Past,
) -> String {
    let t = replay::to_text(run, prop, seed, no, found, log, past);
    let mine = format!("config {} {}", crate::config(), crate::CONFIGS[crate::config() as usize]);
    t.replace(&mine, &format!("config {config} {}", crate::CONFIGS[config as usize]))
}

/// Number of different values in the workers' sets.
fn merged(workers: &[Worker], name: &str) -> u64 {
    let mut all: Vec<u64> = Vec::new();
    for w in workers {
        if let Ok(b) = std::fs::read(format!("{}.{name}", w.out)) {
            all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    all.sort_unstable();
    all.dedup();
    all.len() as u64
}

struct Evidence<'a> {
    id: &'a str,
    prop: u32,
    tier: &'a str,
    seed: u64,
    jobs: u64,
    sum: &'a Sum,
    cases: u64,
    states: u64,
    worked: f64,
    wall: f64,
    longest: f64,
    recheck: &'a Again,
    violation: Option<(&'a str, &'a Found)>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(e: &Evidence<'_>) -> String {
    let get = |k: &str| e.sum.kv.get(k).copied().unwrap_or(0);
    let runs = get("runs");
    let per_hour = |n: u64| (n as f64 / e.worked.max(0.001) * 3600.0) as u64;
    let p = &props::PROPS[e.prop as usize - 1];
    let kinds: Vec<String> = Kind::ALL
        .iter()
        .enumerate()
        .filter(|(i, _)| get(&format!("kind:{i}")) > 0)
        .map(|(i, k)| format!("{}: {}", js(k.name()), get(&format!("kind:{i}"))))
        .collect();
    let faults: Vec<String> = Fault::ALL
        .iter()
        .enumerate()
        .filter(|(i, _)| get(&format!("fault:{i}")) > 0)
        .map(|(i, k)| format!("{}: {}", js(k.name()), get(&format!("fault:{i}"))))
        .collect();
    let samples: Vec<String> = e.sum.samples.iter().take(3).map(|s| js(s)).collect();
    let mut s = String::from("{\n");
    s.push_str(&format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n", js(e.id), js(e.tier), e.seed));
    s.push_str("  \"level\": \"exploration\",\n  \"coverage\": {\n");
    s.push_str(&format!("    \"evaluations\": {},\n", get("evals")));
    s.push_str(&format!("    \"distinct_nontrivial\": {},\n", e.cases));
    let rule = format!(
        "Every run is generated from a seed: 1 to 4 simulated clients with their own mixes of operations take turns under a seeded scheduler, and faults are injected at seeded points. An evaluation is a {}. Two of them are the same case if kind of step, shape of the forests with the operands marked, variant and fault position agree.",
        p.rule
    );
    s.push_str(&format!("    \"rule\": {},\n", js(&rule)));
    s.push_str(&format!("    \"samples\": [{}],\n", samples.join(", ")));
    s.push_str(&format!("    \"simulated_runs\": {runs},\n    \"seeds\": {runs},\n"));
    s.push_str(&format!("    \"runs_per_hour\": {},\n    \"seeds_per_hour\": {},\n", per_hour(runs), per_hour(runs)));
    s.push_str(&format!("    \"simulated_steps\": {},\n", get("steps")));
    if e.id == "C14" {
        s.push_str(&format!("    \"readers_stopped_within_calls\": {},\n", get("stops")));
        s.push_str(&format!("    \"readers_stopped_between_calls\": {},\n", get("yields")));
        s.push_str("    \"simulated_time\": \"executed basic blocks, which decide when a reader is stopped\",\n");
    } else if e.id == "C16" {
        s.push_str("    \"simulated_time\": \"none: the crate has no clocks or timers; logical time is simulated_steps\",\n");
        s.push_str(&format!("    \"most_stack_of_a_call_bytes\": {},\n", get("stack")));
        s.push_str(&format!("    \"allowed_stack_of_a_call_bytes\": {},\n", crate::meter::STACK));
    } else if e.id == "C17" {
        s.push_str("    \"simulated_time\": \"none: the crate has no clocks or timers; logical time is simulated_steps\",\n");
        s.push_str(&format!("    \"most_bytes_held_per_id\": {},\n", get("held")));
        s.push_str(&format!("    \"allowed_bytes_held_per_id\": {},\n", crate::world::HELD_PER_ID));
    } else if crate::meter::ON {
        let most: Vec<String> = Kind::ALL
            .iter()
            .enumerate()
            .filter(|(i, _)| get(&format!("most:{i}")) > 0)
            .map(|(i, k)| format!("{}: {}", js(k.name()), get(&format!("most:{i}"))))
            .collect();
        s.push_str("    \"simulated_time\": \"executed basic blocks, per call\",\n");
        s.push_str(&format!("    \"calls_measured\": {},\n", get("metered")));
        s.push_str(&format!("    \"largest_work_per_unit\": {{{}}},\n", most.join(", ")));
        s.push_str(&format!("    \"allowed_work_per_unit\": {},\n", crate::meter::BLOCKS));
    } else {
        s.push_str("    \"simulated_time\": \"none: the crate has no clocks or timers; logical time is simulated_steps\",\n");
    }
    s.push_str(&format!("    \"distinct_states\": {},\n", e.states));
    s.push_str("    \"state_measure\": \"shapes of all forests of the world (tree shapes with removed nodes left out, payloads ignored) after a step\",\n");
    s.push_str(&format!("    \"counting_stopped_early\": {},\n", get("cut") > 0));
    s.push_str(&format!("    \"steps_by_kind\": {{{}}},\n", kinds.join(", ")));
    s.push_str(&format!("    \"faults_injected\": {{{}}},\n", faults.join(", ")));
    s.push_str(&format!("    \"refused_steps\": {},\n    \"skipped_steps\": {},\n", get("refused"), get("skipped")));
    s.push_str(&format!("    \"iterator_calls\": {},\n", get("reads")));
    s.push_str(&format!("    \"largest_forest\": {},\n", get("max_nodes")));
    s.push_str(&format!("    \"steps_that_broke_other_properties\": {},\n", get("foreign") + get("deaths")));
    s.push_str(&format!("    \"runs_reproduced_in_another_process\": {},\n", e.recheck.same));
    s.push_str(&format!("    \"runs_not_reproduced\": {},\n", e.recheck.other));
    s.push_str(&format!("    \"worker_processes\": {},\n", e.jobs));
    s.push_str(&format!("    \"longest_time_without_progress_s\": {:.1},\n", e.longest));
    let builds: Vec<String> = match crate::meter::ON {
        true => vec![js(crate::CONFIGS[crate::config() as usize])],
        false => vec![js(crate::CONFIGS[0]), js(crate::CONFIGS[1])],
    };
    s.push_str(&format!("    \"builds\": [{}],\n", builds.join(", ")));
    s.push_str("    \"real_code\": \"all of treena (both builds), the standard allocator and fmt machinery\",\n");
    s.push_str("    \"simulated\": \"payloads (clone, drop, Display, Debug), removal and mapping callbacks, builder closures, print sinks, success or failure of allocations, the clients and the order of their turns, the scheduling of threads\"");
    if let Some((path, f)) = e.violation {
        s.push_str(&format!(
            ",\n    \"violation\": {{\"replay\": {}, \"oracle\": {}, \"message\": {}}}",
            js(path),
            js(f.viol.orc.name()),
            js(&f.viol.msg)
        ));
    }
    s.push_str("\n  },\n");
    s.push_str("  \"assumptions\": [\"a failed allocation unwinds (alloc_error_hook); treena itself has no other behaviour on it\", \"the forests of a run have at most a few thousand nodes, 65535 in runs that fill the 16 bit ID space\", \"seeded sampling: what no sampled run reaches is not covered\"],\n");
    s.push_str(&format!("  \"violations\": {},\n", u32::from(e.violation.is_some())));
    s.push_str(&format!("  \"wall_s\": {:.2}\n}}\n", e.wall));
    let _ = mix(0);
    s
}
