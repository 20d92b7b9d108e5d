mod codec;
mod exec;
mod gen_;
mod hs;
mod ka;
mod peer;
mod wire;
use serde_json::{Value as J, json};
use std::io::Write;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};

fn block<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let ls = tokio::task::LocalSet::new();
    ls.block_on(&rt, f)
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}").replace('\n', " ");
        let m: String = m.chars().take(200).collect();
        if std::env::var("VH_PANIC").is_ok() {
            eprintln!("PANIC {m}");
        }
        exec::PANICS.with(|p| p.borrow_mut().push(m));
    }));
}

/// run jobs on threads; each job yields (id, trace json, scenario json)
fn pool(n: usize, f: impl Fn(usize) -> Option<(J, J)> + Send + Sync + 'static, out: &str, scen: &str) {
    let threads = std::env::var("VH_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let res: Arc<Mutex<Vec<(usize, J, J)>>> = Arc::default();
    let next = Arc::new(AtomicUsize::new(0));
    let f = Arc::new(f);
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (res, next, f) = (res.clone(), next.clone(), f.clone());
            std::thread::spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i))) {
                        Ok(Some((t, s))) => res.lock().unwrap().push((i, t, s)),
                        Ok(None) => {}
                        Err(_) => {
                            let m = exec::PANICS.with(|p| p.borrow_mut().drain(..).collect::<Vec<_>>().join(";"));
                            res.lock().unwrap().push((i, json!({"ev":[{"e":"cfg"},{"e":"harness","m":m}]}), json!({})));
                        }
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let mut r = std::mem::take(&mut *res.lock().unwrap());
    r.sort_by_key(|x| x.0);
    let mut fo = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut fs = std::io::BufWriter::new(std::fs::File::create(scen).unwrap());
    for (i, t, s) in r {
        let mut t = t;
        t["id"] = json!(i);
        writeln!(fo, "{t}").unwrap();
        let mut s = s;
        s["id"] = json!(i);
        writeln!(fs, "{s}").unwrap();
    }
}

async fn run_scen(s: &J) -> J {
    let mut w = exec::World::start(&s["cfg"]).await;
    if let Some(a) = s["cmds"].as_array() {
        for c in a {
            w.step(c).await;
            if w.tmo {
                break;
            }
        }
    }
    let (ev, _) = w.finish().await;
    json!({"ev": ev})
}

fn main() {
    hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        // walk <profile,profile..> <seed> <n> <out> <scen> [index]
        Some("walk") => {
            let profs: Vec<String> = a[2].split(',').map(|s| s.to_string()).collect();
            let seed: u64 = a[3].parse().unwrap();
            let n: usize = a[4].parse().unwrap();
            let only: Option<usize> = a.get(7).and_then(|x| x.parse().ok());
            pool(
                n,
                move |i| {
                    if only.is_some_and(|x| x != i) {
                        return None;
                    }
                    let pr = gen_::profile(&profs[i % profs.len()]);
                    let mut r = gen_::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
                    let cfg = gen_::mk_walk_cfg(&pr, &mut r);
                    let cfg2 = cfg.clone();
                    let pn = pr.name;
                    let (ev, cmds) = block(async move {
                        let w = exec::World::start(&cfg2).await;
                        let mut k = gen_::Walk::new(w, r, pr);
                        k.mfs = cfg2["local"]["mfs"].as_i64().unwrap_or(512);
                        k.chlim = cfg2["local"]["chmax"].as_i64().unwrap_or(65535).min(cfg2["remote"]["chmax"].as_i64().unwrap_or(65535));
                        k.run().await;
                        k.w.finish().await
                    });
                    Some((json!({"prof": pn, "ev": ev}), json!({"prof": pn, "cfg": cfg, "cmds": cmds})))
                },
                &a[5],
                &a[6],
            );
        }
        // run <scenarios.ndjson> <out>
        Some("run") => {
            let txt = std::fs::read_to_string(&a[2]).unwrap();
            let v: Vec<J> = txt.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect();
            let n = v.len();
            pool(
                n,
                move |i| {
                    let s = v[i].clone();
                    let t = block(async { run_scen(&s).await });
                    Some((t, json!({"src": s["id"]})))
                },
                &a[3],
                "/dev/null",
            );
        }
        // ka <scenarios.ndjson> <seed> <out> [base]: keep-alive in real time
        Some("ka") => {
            let txt = std::fs::read_to_string(&a[2]).unwrap();
            let v: Vec<J> = txt.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect();
            let seed: u64 = a[3].parse().unwrap();
            let base: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(0);
            let n = v.len();
            pool(
                n,
                move |i| {
                    let s = v[i].clone();
                    Some((block(async { ka::run(&s, seed.wrapping_mul(1_000_003).wrapping_add(base + i as u64)).await }), json!({})))
                },
                &a[4],
                "/dev/null",
            );
        }
        // hs <scenarios.ndjson> <seed> <out>: handshakes
        Some("hs") => {
            let txt = std::fs::read_to_string(&a[2]).unwrap();
            let v: Vec<J> = txt.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect();
            let seed: u64 = a[3].parse().unwrap();
            let base: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(0);
            let n = v.len();
            pool(
                n,
                move |i| {
                    let s = v[i].clone();
                    Some((block(async { hs::run(&s, seed.wrapping_mul(1_000_003).wrapping_add(base + i as u64)).await }), json!({})))
                },
                &a[4],
                "/dev/null",
            );
        }
        // codec <values|stream> <seed> <n> <out> [index]
        Some("codec") => {
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[5]).unwrap());
            codec::run(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a.get(6).and_then(|x| x.parse().ok()), &mut f);
        }
        // codecv <vectors.ndjson> <out>
        Some("codecv") => {
            let txt = std::fs::read_to_string(&a[2]).unwrap();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            for (i, l) in txt.lines().filter(|l| !l.trim().is_empty()).enumerate() {
                let mut r = codec::replay(&serde_json::from_str(l).unwrap());
                r["id"] = json!(i);
                writeln!(f, "{r}").unwrap();
            }
        }
        _ => eprintln!("usage"),
    }
}
