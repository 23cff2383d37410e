//! Replay files.

use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration};

use crate::exec::{self, Found};
use crate::gen;
use crate::progress::{self, Page};
use crate::props;
use crate::step::*;
use crate::work::{cls_of, found_line, parse_found};
use crate::world::*;
use crate::Args;

pub fn id_name(kind: u32) -> &'static str {
    use crate::ids::*;
    use treena::dynamic::*;
    match kind % ID_KINDS {
        0 => NodeIdUsize::NAME,
        1 => NodeIdU8::NAME,
        2 => NodeIdU16::NAME,
        3 => NodeIdU32::NAME,
        4 => NodeIdU64::NAME,
        5 => TupleId::NAME,
        _ => FieldId::NAME,
    }
}

pub fn to_text(
    run: &Run,
    prop: u32,
    seed: u64,
    no: u64,
    found: Option<&Found>,
    log: &[String],
    past: &Past,
) -> String {
    let mut s = String::new();
    s.push_str("treena-sim replay 1\n");
    s.push_str(&format!("property {}\n", props::PROPS[prop as usize - 1].id));
    s.push_str(&format!("config {} {}\n", crate::config(), crate::CONFIGS[crate::config() as usize]));
    s.push_str(&format!("seed {seed} run {no}\n"));
    s.push_str(&format!("id {} {}\n", run.id_kind, id_name(run.id_kind)));
    if past.runs > 0 {
        s.push_str("# only in a process that has executed other runs before\n");
        s.push_str(&format!("before {seed} {no} {} {}\n", past.by, past.runs));
    }
    if past.tries > 1 {
        s.push_str(&format!("# not every time: executed up to {} times\n", past.tries));
        s.push_str(&format!("tries {}\n", past.tries));
    }
    if let Some(f) = found {
        s.push_str(&format!("violation {}\n", found_line(f)));
        s.push_str(&format!(
            "# {} violated in step {} ({}{}{}): {}\n",
            f.viol.orc.name(),
            f.step,
            f.viol.kind.name(),
            if f.why.is_empty() { "" } else { ", " },
            f.why,
            f.viol.msg
        ));
    }
    for st in &run.steps {
        s.push_str(&format!("step {}\n", st.to_line()));
    }
    s.push_str("# what happens:\n");
    for l in log {
        for l in l.split('\n') {
            s.push_str(&format!("# {l}\n"));
        }
    }
    s
}

/// What has to happen before a run for it to fail. Nothing, but for errors
/// that involve state outside of the forests.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Past {
    pub by: i64,
    /// Number of runs that the same process executes before.
    pub runs: u64,
    /// How often to try.
    pub tries: u32,
}

impl Past {
    pub const NONE: Past = Past { by: 1, runs: 0, tries: 1 };
}

pub struct Replay {
    pub past: Past,
    /// Seed and number that the run was generated from.
    pub seed: u64,
    pub no: u64,
    pub prop: u32,
    pub config: u32,
    pub run: Run,
    pub found: Option<Found>,
}

pub fn parse(text: &str) -> Option<Replay> {
    let mut r = Replay {
        past: Past::NONE,
        seed: 0,
        no: 0,
        prop: 0,
        config: 0,
        run: Run {
            id_kind: 0,
            steps: Vec::new(),
        },
        found: None,
    };
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => r.prop = props::prop_no(v)?,
            "config" => r.config = v.split(' ').next()?.parse().ok()?,
            "id" => r.run.id_kind = v.split(' ').next()?.parse().ok()?,
            "violation" => r.found = Some(parse_found(v)?),
            "before" => {
                let v: Vec<i64> = v.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                let &[seed, no, by, runs] = &v[..] else { return None };
                (r.seed, r.no) = (seed as u64, no as u64);
                (r.past.by, r.past.runs) = (by, runs as u64);
            }
            "tries" => r.past.tries = v.parse().ok()?,
            "step" => r.run.steps.push(Step::parse(v)?),
            _ => {}
        }
    }
    (r.prop != 0).then_some(r)
}

fn load(a: &Args) -> Option<Replay> {
    let path = a.str("file");
    let r = std::fs::read_to_string(path).ok().and_then(|t| parse(&t));
    if r.is_none() {
        eprintln!("sim: {path} is no replay file");
    }
    r
}

/// `inner`: executes a replay file in this very process.
pub fn inner(a: &Args) -> i32 {
    let Some(r) = load(a) else { return 2 };
    if let Some(p) = a.opts.get("page") {
        let page = Page::open(p).expect("src: page");
        progress::install(&page);
    }
    let alone = a.opts.contains_key("alone");
    for k in (1..=r.past.runs).rev().take_while(|_| !alone) {
        let no = (r.no as i64 - r.past.by * k as i64) as u64;
        progress::run(no);
        let run = gen::generate(r.prop, gen::seed_of(r.seed, r.prop, crate::config(), no));
        exec::exec(&run, r.prop, false, None);
    }
    progress::run(r.no);
    let e = match a.opts.contains_key("apart") {
        true => exec::exec_apart(&r.run, r.prop, true, None),
        false => exec::exec(&r.run, r.prop, true, None),
    };
    if !a.opts.contains_key("quiet") {
        for l in &e.log {
            println!("{l}");
        }
    }
    match e.found {
        Some(f) => println!("found {}", found_line(&f)),
        None => println!("clean {:016x}", e.digest),
    }
    0
}

/// How a watched process ended.
pub enum End {
    Exit(ExitStatus),
    /// No progress for too long.
    Stall,
}

/// Waits for a child, and ends it if it makes no progress for `stall` seconds.
pub fn watch(child: &mut Child, page: &Page, stall: f64) -> End {
    let mut at = progress::Watch::new();
    loop {
        if let Ok(Some(s)) = child.try_wait() {
            return End::Exit(s);
        }
        if at.stalled(page, child.id(), stall) {
            let _ = child.kill();
            let _ = child.wait();
            return End::Stall;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// The violation that a process's end stands for.
pub fn dead(page: &Page, what: &str) -> Found {
    let c = page.get(progress::CLASS);
    let kind = *Kind::ALL.get((c & 255) as usize).unwrap_or(&Kind::New);
    Found {
        step: page.get(progress::STEP) as usize,
        digest: 0,
        why: "",
        viol: Viol {
            orc: Orc::Hang,
            kind,
            cls: cls_of(c >> 8 & 255),
            hist: 0,
            faults: 0,
            msg: format!("the step {what}"),
        },
    }
}

/// How long a step may take.
pub const STALL: f64 = 20.0;

/// Executes a replay file, and says whether and how it fails. `Err`: no verdict.
/// `exes`: the checked and the release build, or whatever there is.
pub fn verdict(exes: &[String], file: &str, stall: f64, show: bool) -> Result<Option<Found>, String> {
    let text = std::fs::read_to_string(file).map_err(|e| e.to_string())?;
    let r = parse(&text).ok_or("bad replay file")?;
    let exe = exes.get(r.config as usize).ok_or("no such build")?;
    if r.prop != props::SAME {
        return run_file(exe, file, stall, show);
    }
    let first = states(&exes[0], file, stall, &["--alone", "1"])?;
    if show {
        for l in &first {
            println!("{}", l.1);
        }
    }
    let mut ways: Vec<(&str, &str, &[&str])> = vec![
        ("another process", &exes[0], &["--alone", "1"]),
        ("a thread of its own", &exes[0], &["--alone", "1", "--apart", "1"]),
        ("the release build", &exes[1], &["--alone", "1"]),
    ];
    if r.past.runs > 0 {
        ways.push(("a process that has executed other runs before", exe, &[]));
    }
    for (what, exe, opts) in ways {
        let other = states(exe, file, stall, opts)?;
        if first == other {
            continue;
        }
        let at = first.iter().zip(&other).take_while(|(a, b)| a.0 == b.0).count();
        let line = |v: &[(u64, String)]| -> String {
            v.get(at).map_or("no end".into(), |l| l.1.chars().take(600).collect())
        };
        return Ok(Some(Found {
            step: at.min(r.run.steps.len()),
            digest: first.get(at).map_or(0, |l| l.0),
            why: "",
            viol: Viol {
                orc: Orc::Same,
                kind: r.run.steps.get(at).map_or(Kind::DropForest, |s| s.kind),
                cls: Cls::Legal,
                hist: 0,
                faults: 0,
                msg: format!("in {what} it goes another way: {:?} instead of {:?}", line(&other), line(&first)),
            },
        }));
    }
    Ok(None)
}

/// What happens in the steps of a run, in a process of its own.
fn states(exe: &str, file: &str, stall: f64, opts: &[&str]) -> Result<Vec<(u64, String)>, String> {
    let (text, _) = run_inner(exe, file, stall, opts)?;
    let state = |l: &str| {
        let at = l.rfind(" | state ").map(|i| i + 9).or(l.rfind(" state ").map(|i| i + 7))?;
        u64::from_str_radix(l.get(at..at + 16)?, 16).ok()
    };
    Ok(text.lines().filter_map(|l| Some((state(l)?, l.to_string()))).collect())
}

/// Executes a replay file in a process of its own. `Err`: no verdict.
pub fn run_file(exe: &str, file: &str, stall: f64, show: bool) -> Result<Option<Found>, String> {
    let opts: &[&str] = if show { &[] } else { &["--quiet", "1"] };
    let (text, end) = run_inner(exe, file, stall, opts)?;
    if show {
        print!("{text}");
    }
    match end {
        Some(f) => Ok(Some(f)),
        None => match text.lines().last() {
            Some(l) if l.starts_with("clean ") => Ok(None),
            Some(l) if l.starts_with("found ") => Ok(parse_found(&l[6..])),
            _ => Err("no result".into()),
        },
    }
}

/// What `inner` writes, and how it ended unless by itself.
fn run_inner(exe: &str, file: &str, stall: f64, opts: &[&str]) -> Result<(String, Option<Found>), String> {
    let page_path = format!("{file}.{}.page", std::process::id());
    let page = Page::open(&page_path).map_err(|e| e.to_string())?;
    for w in 0..6 {
        page.set(w, 0);
    }
    let mut cmd = Command::new(exe);
    cmd.args(["inner", "--file", file, "--page", &page_path]);
    cmd.args(opts);
    let out_path = format!("{page_path}.out");
    let out = std::fs::File::create(&out_path).map_err(|e| e.to_string())?;
    cmd.stdout(out).stderr(Stdio::null());
    let mut child = cmd.spawn().map_err(|e| e.to_string())?;
    let end = watch(&mut child, &page, stall);
    let text = std::fs::read_to_string(&out_path).unwrap_or_default();
    let _ = std::fs::remove_file(&out_path);
    let _ = std::fs::remove_file(&page_path);
    match end {
        End::Stall => Ok((text, Some(dead(&page, "does not come to an end")))),
        End::Exit(s) if s.success() => Ok((text, None)),
        End::Exit(s) => match s.code() {
            Some(c) => Err(format!("the simulator failed (exit {c})")),
            None => Ok((text, Some(dead(&page, "ends the process")))),
        },
    }
}

/// `replay`: executes a replay file and says whether it fails as recorded.
pub fn replay(a: &Args) -> i32 {
    let Some(r) = load(a) else { return 2 };
    if r.config != crate::config() && r.prop != props::SAME {
        eprintln!("sim: this file is for the build {}", crate::CONFIGS[r.config as usize % crate::CONFIGS.len()]);
        return 2;
    }
    let file = a.str("file");
    let exe = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    let exes = match r.prop == props::SAME {
        true => vec![exe, a.str("other").to_string()],
        false => vec![exe; crate::CONFIGS.len()],
    };
    let id = props::PROPS[r.prop as usize - 1].id;
    let mut end = verdict(&exes, file, STALL, true);
    for _ in 1..r.past.tries {
        if !matches!(end, Ok(None)) {
            break;
        }
        end = verdict(&exes, file, STALL, true);
    }
    match end {
        Err(e) => {
            eprintln!("sim: {e}");
            2
        }
        Ok(None) => {
            println!("no violation of {id} in this run");
            0
        }
        Ok(Some(f)) => {
            println!("violation of {id} in step {}: {}: {}", f.step, f.viol.orc.name(), f.viol.msg);
            let exact = r.found.as_ref().map_or(false, |w| {
                w.same(&f) && w.step == f.step && w.digest == f.digest
            });
            println!("as recorded: {}", if exact { "yes, exactly" } else { "no" });
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}
