//! vh check --prop Cxx --seed N --tier quick|thorough --threads N --out FILE
//! vh item  --prop Cxx --seed N --family F --idx I [--tier T]
//! vh replay --prop Cxx --line "<sfen> moves ..."
//! vh selftest
//! vh scripts --seed N --count N --len N
//! vh keydigest / vh obsdigest / vh race ...

use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;
use vh::check::*;
use vh::engine::*;
use vh::model::*;
use vh::plan::*;
use vh::special::*;

#[global_allocator]
static ALLOCATOR: vh::mem::Counting = vh::mem::Counting;

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// Monitors that look at the whole run.
fn finish(prop: &str, sh: &Shared, t: &mut Totals, seed: u64, thorough: bool) -> Res {
    if prop == "C14" {
        let v = sh.sample_keys.lock().unwrap();
        let k: Vec<u64> = v.iter().map(|x| x.0).collect();
        if k.len() >= 500 {
            let r = rank_of_keys(&k);
            t.n.insert("rank of the sampled keys over GF(2)", r as u64);
            if r < 63 {
                return Err(Viol {
                    what: format!("the keys of {} random positions span only {r} bits", k.len()),
                    signature: format!("rank {r}"),
                });
            }
        }
    }
    if prop == "C27" {
        let kept = vh::mem::KEPT.load(Ordering::Relaxed);
        t.n.insert("bytes kept after everything was dropped", kept.max(0) as u64);
        if kept > 24 << 20 {
            return Err(Viol {
                what: format!("memory is not given back: {kept} bytes are still allocated after everything was dropped"),
                signature: "whole run".into(),
            });
        }
        let grown = vh::mem::GROWN.load(Ordering::Relaxed);
        t.n.insert("bytes added by the third and fourth repetition", grown.max(0) as u64);
        if grown > 8 << 10 {
            return Err(Viol {
                what: format!("memory is not given back: all third and fourth repetitions of the same use together left {grown} more bytes allocated"),
                signature: "whole run".into(),
            });
        }
        let (grown, threads) = mem_threads(seed, if thorough { 1500 } else { 300 })?;
        t.n.insert("threads that used the library and ended", threads);
        t.n.insert("bytes they left (last half)", grown.max(0) as u64);
        t.n.insert("allocations and frees watched", vh::mem::CALLS.load(Ordering::Relaxed));
    }
    Ok(())
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_out(path: &str, prop: &str, seed: u64, t: &Totals, found: Option<(&Viol, usize, u64)>, known: &[String], wall: f64) {
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n \"seed\": {seed},\n \"wall_s\": {wall:.3},\n", json_str(prop)));
    s.push_str(&format!(" \"api_calls\": {},\n \"distinct\": {},\n \"distinct_states\": {},\n", t.api_calls, t.distinct.len(), t.states.len()));
    let c: Vec<String> = t.n.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    s.push_str(&format!(" \"counts\": {{{}}},\n", c.join(", ")));
    let c: Vec<String> = t.samples.iter().take(6).map(|x| json_str(&x.chars().take(400).collect::<String>())).collect();
    s.push_str(&format!(" \"samples\": [{}],\n", c.join(", ")));
    let c: Vec<String> = known.iter().map(|x| json_str(x)).collect();
    s.push_str(&format!(" \"known\": [{}],\n", c.join(", ")));
    match found {
        Some((v, f, i)) => s.push_str(&format!(
            " \"violation\": {{\"what\": {}, \"signature\": {}, \"family\": {f}, \"idx\": {i}}}\n",
            json_str(&v.what),
            json_str(&v.signature)
        )),
        None => s.push_str(" \"violation\": null\n"),
    }
    s.push_str("}\n");
    std::fs::write(path, s).expect("write result");
}

fn known_set(a: &Args) -> HashSet<String> {
    let mut out = HashSet::new();
    if let Some(p) = a.get("--known") {
        if let Ok(t) = std::fs::read_to_string(p) {
            for l in t.lines() {
                out.insert(l.to_string());
            }
        }
    }
    out
}

/// Search for boards with as many pseudo-legal moves as possible: could the
/// list of 593 overflow before the illegal moves are taken out of it?
fn climb(seed: u64, secs: u64, threads: usize, kings: u64) {
    use vh::gen::*;
    let best = std::sync::Mutex::new((0usize, String::new()));
    std::thread::scope(|sc| {
        for t in 0..threads {
            let best = &best;
            sc.spawn(move || {
                let mut rng = Rng::new(seed, t as u64, 99);
                let t0 = Instant::now();
                let mut v = Vec::with_capacity(700);
                while t0.elapsed().as_secs() < secs {
                    let fam = *rng.pick(&[9, 9, 1, 8]);
                    let mut p = start(&mut rng, fam);
                    if kings == 2 && (p.king(0).is_none() || p.king(1).is_none()) {
                        continue;
                    }
                    p.pseudo(&mut v);
                    let mut cur = v.len() as f64;
                    let mut temp = 12.0f64;
                    for _ in 0..60000 {
                        temp = (temp * 0.9999).max(0.3);
                        let mut q = p.clone();
                        for _ in 0..rng.range(1, 3) {
                            mutate(&mut rng, &mut q);
                        }
                        if !q.valid() {
                            continue;
                        }
                        q.pseudo(&mut v);
                        let n = v.len() as f64;
                        if n >= cur || (rng.next() as f64 / u64::MAX as f64) < ((n - cur) / temp).exp() {
                            p = q;
                            cur = n;
                            let mut g = best.lock().unwrap();
                            if v.len() > g.0 {
                                *g = (v.len(), p.sfen());
                                println!("{} {}", g.0, g.1);
                            }
                        }
                    }
                }
            });
        }
    });
}

fn main() {
    let a = Args(std::env::args().skip(1).collect());
    let cmd = a.0.first().map(|s| s.as_str()).unwrap_or("").to_string();
    install_hook();
    install_signals();
    let seed = a.num("--seed", 1);
    let thorough = a.get("--tier") == Some("thorough");
    let prop = leak(a.get("--prop").unwrap_or("C01"));
    let threads = a.num("--threads", 8) as usize;
    vh::mem::ON.store(prop == "C27", Ordering::Relaxed);
    match cmd.as_str() {
        "check" => {
            let t0 = Instant::now();
            if let Err(e) = self_test() {
                eprintln!("self test of the rules model: {e}");
                std::process::exit(2);
            }
            let scale = a.get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let mut pl = plan(prop, thorough, scale);
            if let Some(f) = a.get("--only-family").and_then(|x| x.parse::<usize>().ok()) {
                pl.retain(|x| x.0 == f);
            }
            let sh = Shared::new();
            let known = known_set(&a);
            let (mut tot, mut found, known_hits) = run_items(prop, seed, thorough, threads, &pl, &known, |cx, f, i| dispatch(cx, &sh, f, i));
            tot.n.insert("items", pl.iter().map(|x| x.1).sum());
            if found.is_none() {
                if let Err(v) = finish(prop, &sh, &mut tot, seed, thorough) {
                    found = Some(Found { viol: v, family: 999, idx: 0 });
                }
            }
            let wall = t0.elapsed().as_secs_f64();
            if let Some(out) = a.get("--out") {
                write_out(out, prop, seed, &tot, found.as_ref().map(|f| (&f.viol, f.family, f.idx)), &known_hits, wall);
            }
            if a.get("--print").is_some() {
                println!("{prop} {:.1}s distinct {} states {} api {} {:?}", wall, tot.distinct.len(), tot.states.len(), tot.api_calls, tot.n);
            }
            if let Some(f) = found {
                let s: String = f.viol.signature.chars().take(300).collect();
                println!("FOUND family={} idx={}: {} [{}]", f.family, f.idx, f.viol.what, s);
                std::process::exit(1);
            }
        }
        "item" => {
            let f = a.num("--family", 0) as usize;
            let i = a.num("--idx", 0);
            let sh = Shared::new();
            let mut cx = Cx::new(prop, seed, thorough);
            cx.family = f;
            cx.idx = i;
            cx.rng = item_rng(prop, seed, f, i);
            let r = guarded(
                || CUR.with(|c| c.borrow().as_ref().map(|h| h.text()).unwrap_or_default()),
                || dispatch(&mut cx, &sh, f, i),
            );
            println!("{:?}", cx.n);
            match r {
                Ok(Ok(())) => println!("held"),
                Ok(Err(v)) => {
                    println!("violated: {} [{}]", v.what, v.signature);
                    std::process::exit(1);
                }
                Err(e) => {
                    eprintln!("{e}");
                    std::process::exit(2);
                }
            }
        }
        "replay" => {
            let h = parse_line(a.get("--line").unwrap_or("")).expect("bad line");
            let sh = Shared::new();
            let mut cx = Cx::new(prop, seed, thorough);
            let r = guarded(
                || CUR.with(|c| c.borrow().as_ref().map(|h| h.text()).unwrap_or_default()),
                || {
                    if prop == "C24" {
                        perft_at(&mut cx, &h.end(), 12000)
                    } else {
                        replay_hist(&mut cx, &sh, &h)
                    }
                },
            );
            match r {
                Ok(Ok(())) => println!("held"),
                Ok(Err(v)) => {
                    println!("violated: {} [{}]", v.what, v.signature);
                    std::process::exit(1);
                }
                Err(e) => {
                    eprintln!("{e}");
                    std::process::exit(2);
                }
            }
        }
        "quiet" => {
            let (from, n) = (a.num("--from", 0), a.num("--count", 100));
            let o = vh::quiet::quiet(seed, from, n);
            println!("confined {} items {} states {} calls {}", o.confined as u8, o.items, o.states, o.calls);
            if let Some(e) = o.error {
                eprintln!("{e}");
                std::process::exit(2);
            }
            if let Some(v) = o.viol {
                println!("FOUND {} [{}]", v.what, v.signature);
                std::process::exit(1);
            }
        }
        "divide" => {
            // leaves after each move of the initial position, by the rules model
            let p = Pos::startpos();
            for d in 1..=a.num("--depth", 3) as u32 {
                let l = p.legal_moves();
                let mut out = vec![String::new(); l.len()];
                let todo = AtomicU64::new(0);
                let res = Mutex::new(&mut out);
                std::thread::scope(|sc| {
                    for _ in 0..threads {
                        sc.spawn(|| loop {
                            let i = todo.fetch_add(1, Ordering::Relaxed) as usize;
                            if i >= l.len() {
                                break;
                            }
                            let n = p.make(l[i]).perft(d - 1);
                            res.lock().unwrap()[i] = format!("{}:{n}", l[i].usi());
                        });
                    }
                });
                println!("{}", out.join(" "));
            }
        }
        "selftest" => match self_test() {
            Ok(()) => println!("ok"),
            Err(e) => {
                eprintln!("{e}");
                std::process::exit(2);
            }
        },
        "scripts" => {
            let n = a.num("--count", 10);
            let len = a.num("--len", 8) as usize;
            let out = std::io::stdout();
            let mut o = std::io::BufWriter::new(out.lock());
            let from = a.num("--from", 0);
            for i in from..from + n {
                writeln!(o, "{}", script_no(seed, i, len)).unwrap();
            }
        }
        "obsdigest" => {
            // one digest per script, in this build
            let n = a.num("--count", 10);
            let len = a.num("--len", 8) as usize;
            let tail = a.num("--tail", 6) as usize;
            let next = AtomicU64::new(0);
            let out = Mutex::new(vec![0u64; n as usize]);
            let stats = Mutex::new((0u64, HashSet::<u64>::new(), 0u64, 0u64));
            let bad = Mutex::new(None::<String>);
            std::thread::scope(|sc| {
                for _ in 0..threads {
                    sc.spawn(|| {
                        let (mut nobs, mut seen, mut moves, mut checks) = (0u64, HashSet::new(), 0u64, 0u64);
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || bad.lock().unwrap().is_some() {
                                break;
                            }
                            let line = script_no(seed, i, len);
                            let h = parse_line(&line).unwrap();
                            let mut d = 0;
                            let r = guarded(
                                || line.clone(),
                                || {
                                    d = replay_digest(&h, tail, |_, _, o| {
                                        nobs += 1;
                                        seen.insert(o.st.ident().0);
                                        moves += o.moves.len() as u64;
                                        checks += o.in_check as u64;
                                    });
                                    Ok(())
                                },
                            );
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(v)) => *bad.lock().unwrap() = Some(format!("{} [{}]", v.what, v.signature)),
                                Err(e) => {
                                    eprintln!("{e}");
                                    std::process::exit(2);
                                }
                            }
                            out.lock().unwrap()[i as usize] = d;
                        }
                        let mut g = stats.lock().unwrap();
                        g.0 += nobs;
                        g.1.extend(seen);
                        g.2 += moves;
                        g.3 += checks;
                    });
                }
            });
            if let Some(b) = bad.into_inner().unwrap() {
                println!("FOUND {b}");
                std::process::exit(1);
            }
            let v = out.into_inner().unwrap();
            let t: Vec<String> = v.iter().map(|x| format!("{x:016x}")).collect();
            std::fs::write(a.get("--out").unwrap(), t.join("\n") + "\n").unwrap();
            let s = stats.into_inner().unwrap();
            println!("{{\"observations\": {}, \"states\": {}, \"moves\": {}, \"in_check\": {}}}", s.0, s.1.len(), s.2, s.3);
        }
        "obsdump" => {
            let h = parse_line(a.get("--line").unwrap_or("")).expect("bad line");
            let tail = a.num("--tail", 6) as usize;
            let d = replay_digest(&h, tail, |i, w, o| {
                print!("{}", dump_line(i, w, o));
            });
            println!("digest {d:016x}");
        }
        "linedigest" => {
            let text = std::fs::read_to_string(a.get("--file").unwrap()).expect("script file");
            let tail = a.num("--tail", 0) as usize;
            for l in text.lines().filter(|l| !l.is_empty()) {
                let h = parse_line(l).expect("line");
                let mut d = 0;
                let r = guarded(
                    || l.to_string(),
                    || {
                        d = replay_digest(&h, tail, |_, _, _| {});
                        Ok(())
                    },
                );
                match r {
                    Ok(Ok(())) => println!("{d:016x}"),
                    Ok(Err(v)) => {
                        println!("FOUND {} [{}]", v.what, v.signature);
                        std::process::exit(1);
                    }
                    Err(e) => {
                        eprintln!("{e}");
                        std::process::exit(2);
                    }
                }
            }
        }
        "keydigest" => {
            let d = vh::multi::key_digests(seed, a.num("--count", 3000), a.num("--how", 0), a.get("--reverse").is_some());
            for x in d {
                println!("{x:016x}");
            }
        }
        "orderdigest" => {
            for x in vh::multi::order_digests(seed, a.num("--count", 4000), a.num("--order", 0)) {
                println!("{x:016x}");
            }
        }
        "orderdump" => {
            println!("{}", vh::multi::kin_sample(seed, a.num("--index", 0)).sfen());
        }
        "keydump" => {
            let c = a.num("--chunk", 0);
            let n = a.num("--chunks", 1);
            if a.get("--how").is_some() {
                vh::multi::first_use(seed, a.num("--how", 0));
            }
            for i in c * vh::multi::CHUNK..(c + n) * vh::multi::CHUNK {
                let p = vh::multi::key_sample(seed, i);
                let pos = vh::real::new(&p);
                println!("{} | {:016x} {:x?}", p.sfen(), vh::real::key(&pos), vh::real::keys(&pos));
            }
        }
        "race" => {
            let (send, sync) = vh::multi::send_sync();
            println!("send {send} sync {sync}");
            if !send || !sync {
                return;
            }
            let (items, len, rounds) = (a.num("--items", 6), a.num("--len", 6) as usize, a.num("--rounds", 40));
            let hot = a.num("--hot", rounds);
            let r = if a.get("--alone").is_some() {
                vh::multi::race_alone(seed, threads, items, len, rounds, hot)
            } else {
                vh::multi::race_together(seed, threads, items, len, rounds, hot, a.num("--how", 0))
            };
            println!("calls {}", r.calls);
            let t: Vec<String> = r.digests.iter().map(|x| format!("{x:016x}")).collect();
            println!("digests {}", t.join(" "));
        }
        "climb" => climb(seed, a.num("--secs", 60), threads, a.num("--kings", 2)),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2);
        }
    }
}
