//! Searches for (and replays) inputs on which the real code breaks a property.
//! usage: falsify <property> <seconds> <seed> <literals.json> | falsify --replay <file>
mod data;
mod gen;
mod http;
mod requests;
mod responses;
mod routes;

use std::panic;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use gen::{Gen, Stats};
use serde_json::{json, Value};

pub struct Prop { pub id: &'static str, pub gen: fn(&mut Gen), pub check: fn(&Value, &mut Stats) -> Result<(), String>, pub rule: &'static str }

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(routes::props());
    v.extend(data::props());
    v.extend(requests::props());
    v.extend(responses::props());
    v
}

/// The code under test prints too, so the result goes to a file.
fn report(v: Value) {
    match std::env::args().nth(5) { Some(p) => std::fs::write(p, v.to_string()).expect("result file"), None => println!("{}", v) }
}

/// Those whose cases say nothing of how the requests are made, and whether the method doesn't matter.
fn asks(id: &str) -> Option<bool> { match id { "P01" | "P02" | "P03" | "P04" | "P05" | "P06" | "P07" => Some(false), "P12" | "P13" | "P14" | "P16" | "P19" | "P24" | "P26" => Some(true), _ => None } }
fn run_check(p: &Prop, case: &Value, st: &mut Stats) -> Result<(), String> {
    http::ask(case, asks(p.id).unwrap_or(false));
    match panic::catch_unwind(panic::AssertUnwindSafe(|| (p.check)(case, st))) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("FALSIFY_LOUD").is_err() { panic::set_hook(Box::new(|_| {})); }
    if a.len() == 3 && a[1] == "--replay" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
        let ps = props();
        let p = ps.iter().find(|p| p.id == v["property"]).expect("property");
        let mut st = Stats::default();
        match run_check(p, &v["case"], &mut st) {
            Ok(()) => { println!("REPLAY ok: the input no longer breaks {}", p.id) }
            Err(e) => { println!("REPLAY broken: {}: {}", p.id, e); std::process::exit(1) }
        }
        return;
    }
    let (id, secs, seed) = (&a[1], a[2].parse::<f64>().unwrap(), a[3].parse::<u64>().unwrap());
    let lits: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&a[4]).unwrap_or_default()).unwrap_or_default();
    let all = props();
    let idx = all.iter().position(|p| p.id == *id);
    let rule = idx.map_or("", |i| all[i].rule);
    let idx = match idx { Some(i) => i, None => { report(json!({"property": id, "evaluations": 0, "distinct": 0, "samples": [], "violation": null, "rule": "none"})); return } };
    let deadline = Instant::now() + Duration::from_millis((secs * 1000.0) as u64);
    let n = std::env::var("FALSIFY_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let found: Arc<Mutex<Option<(Value, String)>>> = Arc::new(Mutex::new(None));
    let current: Vec<Arc<Mutex<Option<(Instant, Value)>>>> = (0..n).map(|_| Arc::new(Mutex::new(None))).collect();
    let trace = std::env::var("FALSIFY_TRACE").ok();
    let mut hs = vec![];
    for w in 0..n {
        let (found, cur, lits, trace) = (found.clone(), current[w].clone(), lits.clone(), trace.clone());
        hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let ps = props();
            let gen = ps[idx].gen;
            let id = ps[idx].id;
            let mut g = Gen::new(seed.wrapping_mul(1000).wrapping_add(w as u64), w, n, deadline, &lits);
            g.sink = Some(Box::new(move |case: Value, st: &mut Stats| -> bool {
                if found.lock().unwrap().is_some() { return false }
                if let Some(t) = &trace { let _ = std::fs::write(format!("{}.{}", t, w), serde_json::to_string(&json!({"property": ps[idx].id, "case": case})).unwrap()); }
                *cur.lock().unwrap() = Some((Instant::now(), case.clone()));
                let r = run_check(&ps[idx], &case, st);
                *cur.lock().unwrap() = None;
                if st.samples.len() < 4 && st.evals % 37 == 1 { st.samples.push(case.to_string().chars().take(400).collect()) }
                match r { Ok(()) => true, Err(e) => { let mut f = found.lock().unwrap(); if f.is_none() { *f = Some((case, e)) } false } }
            }));
            g.asks = asks(id).is_some();
            gen(&mut g);
            (g.st, g.exhausted)
        }).unwrap());
    }
    let done = Arc::new(Mutex::new(false));
    {
        let (found, done, current, id) = (found.clone(), done.clone(), current.clone(), id.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if *done.lock().unwrap() { return }
            for c in &current {
                let c = c.lock().unwrap();
                if let Some((t, case)) = &*c {
                    if t.elapsed() > Duration::from_secs(30) && found.lock().unwrap().is_none() {
                        report(json!({"property": id, "evaluations": 1, "distinct": 1, "samples": [], "rule": "", "violation": {"case": case, "message": "no answer within 30 s"}}));
                        std::process::exit(0);
                    }
                }
            }
        });
    }
    let mut st = Stats::default();
    let mut exhausted = true;
    for h in hs {
        match h.join() {
            Ok((s, e)) => { st.evals += s.evals; st.distinct.extend(s.distinct); st.samples.extend(s.samples); exhausted &= e }
            Err(_) => { let mut f = found.lock().unwrap(); if f.is_none() { *f = Some((Value::Null, "the search itself panicked".into())) } }
        }
    }
    *done.lock().unwrap() = true;
    st.samples.truncate(6);
    let f = found.lock().unwrap().clone();
    report(json!({"property": id, "evaluations": st.evals, "distinct": st.distinct.len(), "samples": st.samples, "rule": rule, "small_scope_finished": exhausted,
        "violation": f.map(|(c, m)| json!({"case": c, "message": m}))}));
}
