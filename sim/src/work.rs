//! The processes that simulate.

use std::io::Write as _;
use std::time::Instant;

use crate::exec::{self, Cover, Exec, Found};
use crate::gen;
use crate::progress::{self, Page};
use crate::replay;
use crate::step::*;
use crate::world::*;
use crate::Args;

/// `work`: simulates the runs `from`, `from + by`, ... below `to`.
pub fn work(a: &Args) -> i32 {
    let prop = a.num("prop") as u32;
    let seed = a.num("seed");
    let (from, by, to) = (a.num("from"), a.num("by"), a.num("to"));
    let start = Instant::now();
    let limit = a.num("seconds") as f64;
    let page = Page::open(a.str("page")).expect("src: page");
    progress::install(&page);
    let mut cover = Cover::new(a.num("set") as usize);
    let mut out = std::fs::File::create(a.str("out")).expect("src: out");
    let mut text = String::new();
    let mut sample = Vec::new();
    let mut short = Vec::new();
    let mut found: Option<(u64, u32, Found)> = None;
    let reverse = a.num("reverse") == 1;
    let digests = a.num("digests");
    let apart = a.opts.contains_key("apart");
    let mut list: Box<dyn Iterator<Item = u64>> = Box::new((from..to).step_by(by as usize));
    if apart {
        // In another order, without going to the end first.
        let block = 64 * by;
        list = Box::new((from..to).step_by(block as usize).flat_map(move |b| {
            let v: Vec<u64> = (b..(b + block).min(to)).step_by(by as usize).collect();
            v.into_iter().rev()
        }));
    } else if reverse {
        let v: Vec<u64> = (from..to).step_by(by as usize).collect();
        list = Box::new(v.into_iter().rev());
    }
    let mut next = to;
    for i in list {
        let stop = page.get(progress::STOP);
        if i >= stop || (apart && stop != u64::MAX) || start.elapsed().as_secs_f64() > limit {
            next = i;
            break;
        }
        progress::run(i);
        let run = gen::generate(prop, gen::seed_of(seed, prop, crate::config(), i));
        let e = match apart {
            true => exec::exec_apart(&run, prop, false, Some(&mut cover)),
            false => exec::exec(&run, prop, false, Some(&mut cover)),
        };
        page.set(progress::DONE, page.get(progress::DONE) + 1);
        if i < digests {
            text.push_str(&format!("digest {i} {:016x}\n", e.digest));
        }
        if let Some(f) = e.found {
            found = Some((i, run.id_kind, f));
            break;
        }
        // Samples: short runs that are about the property.
        if short.len() < 60 && from == 0 && e.cases > 0 && run.steps.len() <= 9 {
            short.push(i);
        }
    }
    // (Afterwards, for a run is to be preceded by other runs only.)
    for &i in short.iter().take_while(|_| found.is_none()) {
        if sample.len() < 2 {
            let run = gen::generate(prop, gen::seed_of(seed, prop, crate::config(), i));
            let mut e = exec::exec(&run, prop, true, None);
            if sample.is_empty() || e.log.iter().any(|l| l.contains("Faulted") || l.contains("Refused")) {
                let mut s = format!("run {i}, ID type {}:\n", replay::id_name(run.id_kind));
                for l in e.log.drain(..) {
                    s.extend(l.chars().take(300));
                    s.push('\n');
                }
                sample.push(s);
            }
        }
    }
    let t = &cover.stats;
    let mut kv = |k: &str, v: u64| text.push_str(&format!("{k} {v}\n"));
    kv("next", next);
    kv("runs", t.runs);
    kv("steps", t.steps);
    kv("evals", t.evals);
    kv("refused", t.refused);
    kv("skipped", t.skipped);
    kv("reads", t.reads);
    kv("foreign", t.foreign);
    kv("max_nodes", t.max_nodes);
    kv("cut", u64::from(cover.cut));
    for (i, n) in t.kinds.iter().enumerate() {
        kv(&format!("kind:{i}"), *n);
    }
    kv("stops", t.stops);
    kv("yields", t.yields);
    kv("metered", t.metered);
    kv("stack", t.stack);
    kv("held", t.held);
    for (i, n) in t.most.iter().enumerate() {
        kv(&format!("most:{i}"), *n);
    }
    for (i, n) in t.faults.iter().enumerate() {
        kv(&format!("fault:{i}"), *n);
    }
    for s in &sample {
        text.push_str(&format!("sample {}\n", s.replace('\n', "\u{1}")));
    }
    if let Some((i, _, f)) = &found {
        text.push_str(&format!("found {i} {}\n", found_line(f)));
    }
    text.push_str("end 1\n");
    out.write_all(text.as_bytes()).expect("src: out");
    for (name, set) in [("cases", &cover.cases), ("states", &cover.states)] {
        let mut v: Vec<u64> = set.iter().copied().collect();
        v.sort_unstable();
        let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(format!("{}.{name}", a.str("out")), bytes).expect("src: out");
    }
    0
}

pub fn found_line(f: &Found) -> String {
    format!(
        "{} {} {} {} {} {} {:016x} {} {}",
        f.step,
        f.viol.orc as u8,
        f.viol.kind as u8,
        f.viol.cls as u8,
        f.viol.hist,
        f.viol.faults,
        f.digest,
        if f.why.is_empty() { "-" } else { f.why },
        f.viol.msg.replace('\n', "\\n")
    )
}

pub fn cls_of(v: u64) -> Cls {
    match v {
        1 => Cls::Legal,
        2 => Cls::Refused,
        3 => Cls::Faulted,
        _ => Cls::Skip,
    }
}

pub fn parse_found(s: &str) -> Option<Found> {
    let mut it = s.splitn(9, ' ');
    let mut num = || it.next()?.parse::<u64>().ok();
    let step = num()? as usize;
    let orc = *Orc::ALL.get(num()? as usize)?;
    let kind = *Kind::ALL.get(num()? as usize)?;
    let cls = cls_of(num()?);
    let hist = num()? as u32;
    let faults = num()?;
    let digest = u64::from_str_radix(it.next()?, 16).ok()?;
    let why = match it.next()? {
        "after-effect" => "after-effect",
        "wrapped-id" => "wrapped-id",
        "threads" => "threads",
        _ => "",
    };
    Some(Found {
        step,
        digest,
        why,
        viol: Viol {
            orc,
            kind,
            cls,
            hist,
            faults,
            msg: it.next()?.to_string(),
        },
    })
}

/// `gen`: writes a run as a replay file without a violation.
pub fn gen(a: &Args) -> i32 {
    let prop = a.num("prop") as u32;
    let run = gen::generate(prop, gen::seed_of(a.num("seed"), prop, crate::config(), a.num("run")));
    print!("{}", replay::to_text(&run, prop, a.num("seed"), a.num("run"), None, &[], &replay::Past::NONE));
    0
}

/// `small`: minimises a failing run and writes the replay file.
pub fn small(a: &Args) -> i32 {
    let prop = a.num("prop") as u32;
    let (seed, no) = (a.num("seed"), a.num("run"));
    let page = Page::open(a.str("page")).expect("src: page");
    progress::install(&page);
    let run = gen::generate(prop, gen::seed_of(seed, prop, crate::config(), no));
    let first = match exec::exec(&run, prop, false, None) {
        Exec { found: Some(f), .. } => f,
        _ => {
            eprintln!("sim: run {no} does not fail again");
            return 2;
        }
    };
    let (best, _, tries) = exec::minimise(&run, &first, 20_000, 40.0, |r| {
        exec::exec(r, prop, false, None).found
    });
    let e = exec::exec(&best, prop, true, None);
    let mut log = e.log;
    log.push(format!(
        "{} of {} steps left after {tries} attempts",
        best.steps.len(),
        run.steps.len()
    ));
    let text = replay::to_text(&best, prop, seed, no, e.found.as_ref(), &log, &replay::Past::NONE);
    std::fs::write(a.str("out"), text).expect("src: replay");
    0
}
