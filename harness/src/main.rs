use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vh::rep::Rep;
use vh::rng::mix;

type Check = fn(u64, &mut Rep);
fn checks() -> BTreeMap<&'static str, Check> {
    let mut m: BTreeMap<&'static str, Check> = BTreeMap::new();
    m.insert("P01", vh::cp::p01);
    m.insert("P02", vh::cp::p02);
    m.insert("P03", vh::cp::p03);
    m.insert("P04", vh::cp::p04);
    m.insert("P05", vh::cp::p05);
    m.insert("P06", vh::cp::p06);
    m.insert("P07", vh::cp::p07);
    m.insert("P08", vh::cp::p08);
    m.insert("P09", vh::cp::p09);
    m.insert("P10", vh::cp::p10);
    m.insert("P11", vh::cp::p11);
    m.insert("P12", vh::cp::p12);
    m.insert("P13", vh::cp::p13);
    m.insert("P14", vh::cp::p14);
    m.insert("R01", vh::cp::r01);
    m.insert("L01", vh::cl::l01);
    m.insert("L02", vh::cl::l02);
    m.insert("L03", vh::cl::l03);
    m.insert("L04", vh::cl::l04);
    m.insert("D01", vh::cd::d01);
    m.insert("D02", vh::cd::d02);
    m.insert("D03", vh::cd::d03);
    m.insert("X01", vh::ct::x01);
    m.insert("X02", vh::cm::x02);
    m.insert("X02M", vh::cm::x02m);
    m.insert("X03", vh::cm::x03);
    m.insert("S01", vh::cs::s01);
    m.insert("S02", vh::cs::s02);
    m.insert("S03", vh::cx::s03);
    m
}
fn arg(args: &[String], k: &str, d: &str) -> String {
    args.iter()
        .position(|a| a == k)
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_else(|| d.to_string())
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 || (c as u32) == 127 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cs = checks();
    if args.get(1).map(|x| x.as_str()) == Some("list") {
        println!("{:?}", cs.keys());
        return;
    }
    let id = args.get(2).cloned().unwrap_or_default();
    let f = match cs.get(id.as_str()) {
        Some(f) => *f,
        None => {
            eprintln!("unknown check {:?}", id);
            std::process::exit(3)
        }
    };
    let thorough = arg(&args, "--tier", "quick") == "thorough";
    std::panic::set_hook(Box::new(move |i| {
        if std::env::var("VH_BT").is_ok() {
            eprintln!("{}\n{}", i, std::backtrace::Backtrace::force_capture());
        }
    }));
    match args[1].as_str() {
        "dumplex" => {
            vh::cl::dump(args[3].parse().unwrap());
        }
        "replay" => {
            let seed: u64 = args[3].parse().unwrap();
            let h = std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let mut r = Rep { verbose: true, thorough, ..Default::default() };
                    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(seed, &mut r)));
                    if let Err(e) = x {
                        r.violation(format!("panic: {}", vh::panic_text(&e)));
                    }
                    println!("{:?}", r.counters);
                    r.viol.len()
                })
                .unwrap();
            let n = h.join().unwrap();
            std::process::exit(if n > 0 { 1 } else { 0 });
        }
        // the seeds of the cheapest cases: costs CHECK --seed N --cases N --limit COST
        "costs" => {
            let seed: u64 = arg(&args, "--seed", "1").parse().unwrap();
            let cases: u64 = arg(&args, "--cases", "100").parse().unwrap();
            let limit: u64 = arg(&args, "--limit", "5000").parse().unwrap();
            let h = std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let (mut n, mut i) = (0, 0);
                    while n < cases && i < 1000 * cases {
                        i += 1;
                        let cseed = mix(seed, i);
                        let a = vh::alloc::work();
                        let mut r = Rep::default();
                        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(cseed, &mut r)));
                        if (ok.is_err() || r.counters.contains_key("evaluations")) && vh::alloc::work() - a <= limit {
                            println!("{}", cseed);
                            n += 1;
                        }
                    }
                })
                .unwrap();
            h.join().unwrap();
        }
        "run" => {
            let seed: u64 = arg(&args, "--seed", "1").parse().unwrap();
            let shard: u64 = arg(&args, "--shard", "0").parse().unwrap();
            let cases: u64 = arg(&args, "--cases", "100").parse().unwrap();
            let secs: f64 = arg(&args, "--secs", "60").parse().unwrap();
            let hang: u64 = arg(&args, "--hang", "120").parse().unwrap();
            let out = arg(&args, "--out", "/dev/stdout");
            let cur = arg(&args, "--cur", "");
            // only the cases with these seeds
            let only: Vec<u64> = std::fs::read_to_string(arg(&args, "--only", ""))
                .map(|t| t.lines().map(|l| l.parse().unwrap()).collect())
                .unwrap_or_default();
            let partial = !only.is_empty();
            let cases = if partial { only.len() as u64 } else { cases };
            let progress = Arc::new(AtomicU64::new(0));
            let p2 = progress.clone();
            let cur2 = cur.clone();
            let idc = id.clone();
            // watchdog: a case which makes no progress at all for a very long time
            std::thread::spawn(move || {
                let mut last = u64::MAX;
                let mut at = Instant::now();
                loop {
                    std::thread::sleep(Duration::from_millis(500));
                    let p = p2.load(Ordering::Relaxed);
                    if p != last {
                        last = p;
                        at = Instant::now();
                    } else if at.elapsed().as_secs() > hang {
                        eprintln!("HANG {} {}", idc, std::fs::read_to_string(&cur2).unwrap_or_default());
                        std::process::exit(77);
                    }
                }
            });
            let h = std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let mut r = Rep { thorough, ..Default::default() };
                    let t0 = Instant::now();
                    let mut done = 0u64;
                    let mut fails: Vec<(u64, String)> = vec![];
                    let mut slowest = 0f64;
                    let write = |r: &Rep, fails: &Vec<(u64, String)>, done: u64, t0: Instant, slowest: f64| {
                        let mut s = String::from("{");
                        s += &format!("\"cases\":{},\"wall\":{:.3},\"slowest\":{:.3},", done, t0.elapsed().as_secs_f64(), slowest);
                        s += "\"counters\":{";
                        s += &r.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
                        s += "},\"distinct\":[";
                        s += &r.distinct.iter().take(400000).map(|d| format!("{}", d)).collect::<Vec<_>>().join(",");
                        s += "],\"samples\":[";
                        s += &r.samples.iter().map(|d| esc(d)).collect::<Vec<_>>().join(",");
                        s += "],\"known\":[";
                        s += &r.known.iter().map(|(a, b)| format!("[{},{}]", esc(a), esc(b))).collect::<Vec<_>>().join(",");
                        s += "],\"fails\":[";
                        s += &fails.iter().map(|(a, b)| format!("[{},{}]", a, esc(b))).collect::<Vec<_>>().join(",");
                        s += "]}\n";
                        std::fs::write(&out, s).unwrap();
                    };
                    for i in 0..cases {
                        if t0.elapsed().as_secs_f64() > secs {
                            break;
                        }
                        let cseed = if partial { only[i as usize] } else { mix(mix(seed, shard), i) };
                        if !cur.is_empty() {
                            let _ = std::fs::write(&cur, format!("{}", cseed));
                        }
                        progress.fetch_add(1, Ordering::Relaxed);
                        let t1 = Instant::now();
                        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(cseed, &mut r)));
                        slowest = slowest.max(t1.elapsed().as_secs_f64());
                        if t1.elapsed().as_secs_f64() > 5.0 && std::env::var("VH_SLOW").is_ok() {
                            eprintln!("slow case {}", cseed);
                        }
                        if let Err(e) = x {
                            r.violation(format!("panic: {}", vh::panic_text(&e)));
                        }
                        for v in r.viol.drain(..) {
                            fails.push((cseed, v));
                        }
                        done += 1;
                        if partial {
                            write(&r, &fails, done, t0, slowest);
                        }
                        if fails.len() >= 3 {
                            break;
                        }
                    }
                    write(&r, &fails, done, t0, slowest);
                })
                .unwrap();
            h.join().unwrap();
        }
        _ => std::process::exit(3),
    }
}
