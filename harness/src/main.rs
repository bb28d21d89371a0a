mod case;
mod eval;
mod ground;
mod judge;
mod pool;
mod rng;
mod sexp;
mod sound;
mod verdict;
use std::sync::atomic::Ordering;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn finish(js: String) -> ! {
    println!("{}", js);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

fn main() {
    if std::env::var("VH_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "sound" => {
            let p = sound::Params {
                corpus: arg(&args, "--corpus").unwrap_or("/verif/corpus".into()),
                files: arg(&args, "--files").unwrap().split(',').map(|s| s.to_string()).collect(),
                rules: arg(&args, "--rules").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
                secs: arg(&args, "--secs").unwrap_or("10".into()).parse().unwrap(),
                seed: arg(&args, "--seed").unwrap_or("1".into()).parse().unwrap(),
                threads: arg(&args, "--threads").unwrap_or("8".into()).parse().unwrap(),
                out: arg(&args, "--out"),
            };
            let sh = sound::fuzz(&p);
            let (tot, st, found) = (&sh.tot, sh.stats.lock().unwrap(), sh.found.lock().unwrap());
            let distinct = sh.distinct.lock().unwrap().len();
            let samples = sh.samples.lock().unwrap();
            let mut js = String::from("{");
            js += &format!(
                "\"runs\":{},\"parse_err\":{},\"rejected\":{},\"accepted\":{},\"panics\":{},\"stuck\":{},\"distinct_accepted\":{},",
                tot.runs.load(Ordering::Relaxed),
                tot.parse_err.load(Ordering::Relaxed),
                tot.rejected.load(Ordering::Relaxed),
                tot.accepted.load(Ordering::Relaxed),
                tot.panics.load(Ordering::Relaxed),
                sh.stuck.load(Ordering::Relaxed),
                distinct
            );
            js += "\"rules\":{";
            js += &st.rules.iter().map(|(k, v)| format!("{}:[{},{}]", jstr(k), v.0, v.1)).collect::<Vec<_>>().join(",");
            js += "},\"samples\":[";
            js += &samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
            js += "],\"found\":[";
            js += &found.iter().map(|f| f.json()).collect::<Vec<_>>().join(",");
            js += "]}";
            println!("{}", js);
            use std::io::Write;
            let _ = std::io::stdout().flush();
            std::process::exit(0);
        }
        "verdict" => {
            let p = verdict::Params {
                secs: arg(&args, "--secs").unwrap_or("10".into()).parse().unwrap(),
                seed: arg(&args, "--seed").unwrap_or("1".into()).parse().unwrap(),
                threads: arg(&args, "--threads").unwrap_or("8".into()).parse().unwrap(),
                mode: arg(&args, "--mode").unwrap_or("seq".into()).split(',').map(|s| s.to_string()).collect(),
                bin: arg(&args, "--cli"),
                out: arg(&args, "--out"),
            };
            finish(verdict::run(&p));
        }
        "ground" => finish(ground::run(
            arg(&args, "--secs").unwrap_or("10".into()).parse().unwrap(),
            arg(&args, "--seed").unwrap_or("1".into()).parse().unwrap(),
            arg(&args, "--threads").unwrap_or("8".into()).parse().unwrap(),
        )),
        "pool" => {
            if let Some(h) = arg(&args, "--history") {
                pool::replay(h.parse().unwrap());
                return;
            }
            finish(pool::run(
                arg(&args, "--secs").unwrap_or("10".into()).parse().unwrap(),
                arg(&args, "--seed").unwrap_or("1".into()).parse().unwrap(),
                arg(&args, "--threads").unwrap_or("8".into()).parse().unwrap(),
            ));
        }
        _ => {
            eprintln!("usage: vharness sound ...");
            std::process::exit(2);
        }
    }
}
