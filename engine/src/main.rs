mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::Write;
use std::sync::{Condvar, Mutex};
use std::time::Instant;

struct Work { items: Vec<Item>, active: usize, stop: bool }

#[derive(Default)]
struct Tot {
    paths: u64, done: u64, assumed: u64, steps: u64, max_steps: u64, max_events: u32, decisions: u64, conc: u64, hits: u64,
    queries: u64, sat: u64, unsat: u64, unknown: u64, time: f64, max_time: f64, max_sym: usize,
    covers: BTreeSet<u32>, asserts: BTreeMap<u32, u64>, funcs: HashMap<u32, u64>, edges: HashSet<(u32, u32)>,
    fails: Vec<PathResult>, errors: Vec<PathResult>, fail_count: u64, error_count: u64, unknowns: Vec<String>,
    lines: Vec<String>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn main() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| { hook(i); std::process::exit(2) }));
    let mut args = std::env::args().skip(1);
    let mut irf = String::new();
    let mut hs: Vec<String> = vec![];
    let mut threads = 8;
    let mut deadline = 600.0f64;
    let mut timeout_ms = 60_000u32;
    let mut out = String::new();
    let mut paths_dir = String::new();
    let mut selfcheck = false;
    let mut max_steps = 40_000_000u64;
    let mut max_fail = 12u64;
    let mut dump: Option<(String, u64, u64)> = None;
    let mut one: Option<String> = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--harness" => hs.push(args.next().unwrap()),
            "--threads" => threads = args.next().unwrap().parse().unwrap(),
            "--deadline" => deadline = args.next().unwrap().parse().unwrap(),
            "--timeout-ms" => timeout_ms = args.next().unwrap().parse().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--paths" => paths_dir = args.next().unwrap(),
            "--selfcheck" => selfcheck = true,
            "--max-steps" => max_steps = args.next().unwrap().parse().unwrap(),
            "--max-fail" => max_fail = args.next().unwrap().parse().unwrap(),
            "--dump" => { let d = args.next().unwrap(); let e = args.next().unwrap().parse().unwrap(); dump = Some((d, e, 4000)); }
            "--model" => one = Some(args.next().unwrap()),
            _ => irf = a,
        }
    }
    let t0 = Instant::now();
    let text = match std::fs::read_to_string(&irf) { Ok(t) => t, Err(e) => { eprintln!("lsx: {}: {}", irf, e); std::process::exit(2) } };
    let m = match ir::load_module(text) { Ok(m) => m, Err(e) => { eprintln!("lsx: IR: {}", e); std::process::exit(2) } };
    let kinds: Vec<Fk> = m.funcs.iter().map(|f| classify(&f.name, f.body.is_some())).collect();
    let mut gstate = vec![mem::ST_NONE; m.gimage.len()];
    for g in &m.globals {
        if g.addr == 0 { continue; }
        let o = (g.addr - ir::GBASE) as usize;
        for x in &mut gstate[o..o + g.size as usize] { *x = if g.constant { mem::ST_RO } else { mem::ST_RW }; }
    }
    let load_time = t0.elapsed().as_secs_f64();
    let sh = Shared { m, kinds, gstate, cache: solver::Cache::new(), max_steps, selfcheck };
    let mut reports = vec![];
    let mut bad = false;
    for (hi, h) in hs.iter().enumerate() {
        let spent = t0.elapsed().as_secs_f64();
        let limit = spent + ((deadline - spent) * 2.0 / (hs.len() - hi) as f64).min(deadline - spent).max(0.0);
        let entry = match sh.m.func_by_name.get(h) { Some(i) => *i, None => { eprintln!("lsx: no harness {}", h); std::process::exit(2) } };
        if let Some(mx) = &one {
            let model: Vec<u8> = (0..mx.len() / 2).map(|i| u8::from_str_radix(&mx[2 * i..2 * i + 2], 16).unwrap()).collect();
            let mut ex = Exec::new(&sh, timeout_ms);
            ex.trace_out = Some(vec![]);
            let r = ex.run(entry, Item { model, bound: u32::MAX, expect: 0 });
            println!("{:?} events={} steps={} outs={} hash={:016x}", r.stop, r.events, r.steps, r.nouts, r.out_hash);
            for s in &r.stack { println!("   in {}", s); }
            for b in ex.trace_out.as_ref().unwrap() { println!("   out {:?}", String::from_utf8_lossy(b)); }
            continue;
        }
        let t1 = Instant::now();
        let work = Mutex::new(Work { items: vec![Item { model: vec![], bound: 0, expect: 0 }], active: 0, stop: false });
        let cv = Condvar::new();
        let tot = Mutex::new(Tot::default());
        let sh = &sh;
        let dump = &dump;
        std::thread::scope(|sc| {
            for _ in 0..threads {
                let (work, cv, tot) = (&work, &cv, &tot);
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                    let mut ex = Exec::new(sh, timeout_ms);
                    ex.solver.dump = dump.clone();
                    let mut my = Tot::default();
                    loop {
                        let item = {
                            let mut w = work.lock().unwrap();
                            loop {
                                if w.stop { break None; }
                                if let Some(i) = w.items.pop() { w.active += 1; break Some(i); }
                                if w.active == 0 { cv.notify_all(); break None; }
                                w = cv.wait(w).unwrap();
                            }
                        };
                        let item = match item { Some(i) => i, None => break };
                        let r = ex.run(entry, item);
                        my.paths += 1;
                        my.steps += r.steps;
                        my.max_steps = my.max_steps.max(r.steps);
                        my.max_events = my.max_events.max(r.events);
                        let mut halt = false;
                        match &r.stop {
                            Stop::Done => { my.done += 1; my.lines.push(format!("{} {:016x} {}", hex(&r.model), r.out_hash, r.nouts)); }
                            Stop::Assume => my.assumed += 1,
                            Stop::Panic(_) | Stop::Ub(_) | Stop::Violation(_) => {
                                let mut t = tot.lock().unwrap();
                                t.fail_count += 1;
                                if t.fails.len() < 200 { t.fails.push(r); }
                                if t.fail_count >= max_fail { halt = true; }
                            }
                            Stop::Unsupported(_) | Stop::Limit(_) => {
                                let mut t = tot.lock().unwrap();
                                t.error_count += 1;
                                if t.errors.len() < 20 { t.errors.push(r); }
                                if t.error_count > 20 { halt = true; }
                            }
                        }
                        {
                            let mut w = work.lock().unwrap();
                            w.active -= 1;
                            w.items.append(&mut ex.children);
                            if halt || t0.elapsed().as_secs_f64() > limit { w.stop = true; }
                            cv.notify_all();
                        }
                    }
                    let mut t = tot.lock().unwrap();
                    t.paths += my.paths; t.done += my.done; t.assumed += my.assumed; t.steps += my.steps;
                    t.max_steps = t.max_steps.max(my.max_steps); t.max_events = t.max_events.max(my.max_events);
                    t.decisions += ex.decisions; t.conc += ex.concretisations; t.hits += ex.cache_hits;
                    t.queries += ex.solver.queries; t.sat += ex.solver.sat; t.unsat += ex.solver.unsat; t.unknown += ex.solver.unknown;
                    t.time += ex.solver.time; t.max_time = t.max_time.max(ex.solver.max_time);
                    t.max_sym = t.max_sym.max(ex.max_sym);
                    t.covers.extend(ex.covers.iter().copied());
                    for (k, v) in &ex.asserts { *t.asserts.entry(*k).or_insert(0) += v; }
                    for (k, v) in &ex.funcs_used { *t.funcs.entry(*k).or_insert(0) += v; }
                    t.edges.extend(ex.blocks_covered().iter().copied());
                    t.unknowns.extend(ex.unknowns.drain(..));
                    t.lines.append(&mut my.lines);
                }).unwrap();
            }
        });
        let w = work.into_inner().unwrap();
        let t = tot.into_inner().unwrap();
        let left = w.items.len();
        if t.fail_count > 0 { deadline = deadline.min(t0.elapsed().as_secs_f64() + 45.0); }
        let wall = t1.elapsed().as_secs_f64();
        let exhausted = left == 0 && !w.stop && t.error_count == 0 && t.unknown == 0;
        if !exhausted { bad = true; }
        if !paths_dir.is_empty() {
            let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/{}.paths", paths_dir, h)).unwrap());
            for l in &t.lines { writeln!(f, "{}", l).unwrap(); }
        }
        let fl = |v: &Vec<PathResult>| v.iter().map(|r| {
            let (k, d) = match &r.stop {
                Stop::Panic(s) => ("panic", s.clone()), Stop::Ub(s) => ("memory", s.clone()), Stop::Violation(c) => ("assert", c.to_string()),
                Stop::Unsupported(s) => ("unsupported", s.clone()), Stop::Limit(s) => ("limit", s.clone()), _ => ("", String::new()) };
            format!("{{\"kind\":{},\"detail\":{},\"model\":{},\"stack\":[{}]}}", js(k), js(&d), js(&hex(&r.model)), r.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
        }).collect::<Vec<_>>().join(",");
        let mut fns: Vec<&str> = t.funcs.keys().map(|k| sh.m.funcs[*k as usize].name.as_str()).collect();
        fns.sort();
        let rep = format!("{{\"harness\":{},\"exhausted\":{},\"paths\":{},\"done\":{},\"assumed\":{},\"left\":{},\"fail_count\":{},\"error_count\":{},\"steps\":{},\"max_steps\":{},\"max_events\":{},\"decisions\":{},\"concretisations\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"wall\":{:.3},\"symbolic_bytes\":{},\"blocks\":{},\"covers\":{:?},\"asserts\":{{{}}},\"fails\":[{}],\"errors\":[{}],\"functions\":[{}]}}",
            js(h), exhausted, t.paths, t.done, t.assumed, left, t.fail_count, t.error_count, t.steps, t.max_steps, t.max_events, t.decisions, t.conc,
            t.queries, t.sat, t.unsat, t.unknown, t.hits, t.time, t.max_time, wall, t.max_sym, t.edges.len(),
            t.covers.iter().collect::<Vec<_>>(), t.asserts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
            fl(&t.fails), fl(&t.errors), fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        eprintln!("lsx: {} paths={} done={} assumed={} left={} fails={} errors={} decisions={} queries={} hits={} solver={:.1}s maxq={:.2}s steps={} wall={:.1}s",
            h, t.paths, t.done, t.assumed, left, t.fail_count, t.error_count, t.decisions, t.queries, t.hits, t.time, t.max_time, t.steps, wall);
        for e in t.errors.iter().take(3) { eprintln!("   error {:?} model={} in {:?}", e.stop, hex(&e.model), e.stack.iter().take(6).collect::<Vec<_>>()); }
        for e in t.fails.iter().take(5) { eprintln!("   fail {:?} model={} ({:?}) in {:?}", e.stop, hex(&e.model), String::from_utf8_lossy(&e.model), e.stack.iter().take(4).collect::<Vec<_>>()); }
        reports.push(rep);
    }
    if !out.is_empty() {
        let s = format!("{{\"solver\":{},\"load_time\":{:.3},\"harnesses\":[{}]}}\n", js(&solver::version()), load_time, reports.join(",\n"));
        std::fs::write(&out, s).unwrap();
    }
    std::process::exit(if bad { 3 } else { 0 });
}
