//! Native replay of models found by lsx.
//!   run FILE HARNESS        every line "model hash nouts": the harness must end normally with that output
//!   one HARNESS MODEL       run one model and print how it ends
use crate::vx::imp::*;
use std::panic;
use std::sync::Mutex;

enum End { Ok(u64, u64), Assumed, Violated(u32), Panic(String) }

thread_local! { static LOC: std::cell::RefCell<String> = Default::default(); }

fn go(f: fn(), model: &[u8]) -> End {
    reset(model);
    match panic::catch_unwind(|| f()) {
        Ok(()) => ST.with(|s| { let s = s.borrow(); End::Ok(s.hash, s.nouts) }),
        Err(e) => {
            if e.is::<Assumed>() { return End::Assumed; }
            if let Some(v) = e.downcast_ref::<Violated>() { return End::Violated(v.0); }
            End::Panic(LOC.with(|l| l.borrow().clone()))
        }
    }
}
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn text(e: &End) -> String {
    match e {
        End::Ok(h, n) => format!("ok {:016x} {}", h, n),
        End::Assumed => "assumed".into(),
        End::Violated(c) => format!("violated {}", c),
        End::Panic(m) => format!("panic {}", m),
    }
}

pub fn run(table: Vec<(&'static str, fn())>) {
    panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}: {}", l.file(), l.line(), m)).unwrap_or(m);
        LOC.with(|x| *x.borrow_mut() = l.replace('\n', " "));
    }));
    let a: Vec<String> = std::env::args().collect();
    let find = |h: &str| table.iter().find(|(n, _)| *n == h).map(|x| x.1).expect("harness");
    match a[1].as_str() {
        "one" => {
            if a.len() > 4 { ST.with(|s| s.borrow_mut().show = true); }
            println!("{}", text(&go(find(&a[2]), &unhex(&a[3]))));
        }
        "run" => {
            let f = find(&a[3]);
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let lines: Vec<&str> = s.lines().collect();
            let bad = Mutex::new(vec![]);
            let per = lines.len() / 8 + 1;
            std::thread::scope(|sc| {
                for ch in lines.chunks(per) {
                    let bad = &bad;
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                        for l in ch {
                            let p: Vec<&str> = l.split(' ').collect();
                            // A thread of its own for each: nothing of the last path is left in thread-local state.
                            let m = unhex(p[0]);
                            let e = std::thread::Builder::new().stack_size(64 << 20).spawn(move || text(&go(f, &m))).unwrap().join().unwrap();
                                            if e != format!("ok {} {}", p[1], p[2]) { bad.lock().unwrap().push(format!("{} engine=ok {} {} native={}", p[0], p[1], p[2], e)); }
                        }
                    }).unwrap();
                }
            });
            let bad = bad.into_inner().unwrap();
            println!("replayed {} mismatches {}", lines.len(), bad.len());
            for b in bad.iter().take(20) { println!("MISMATCH {}", b); }
        }
        _ => std::process::exit(2),
    }
}
