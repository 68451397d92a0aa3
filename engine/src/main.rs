mod exec;
mod expr;
mod ll;
mod mem;
mod z3;
use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// `symll prep in.ll out.ll [extra substring...]`: turn the bodies of overridden functions into declarations
fn prep(a: &[String]) {
    let src = std::fs::read(&a[0]).unwrap();
    let extra: Vec<&str> = a[2..].iter().map(|s| s.as_str()).collect();
    let mut out = Vec::with_capacity(src.len());
    let mut p = 0;
    let mut skip = false;
    let mut n = 0;
    while p < src.len() {
        let e = src[p..].iter().position(|&c| c == b'\n').map(|k| p + k + 1).unwrap_or(src.len());
        let l = &src[p..e];
        p = e;
        if skip {
            if l[0] == b'}' {
                skip = false;
            }
            continue;
        }
        if l.starts_with(b"define ") {
            let s = String::from_utf8_lossy(l);
            let at = s.find('@').unwrap();
            let rest = &s[at + 1..];
            let name: String = if rest.starts_with('"') {
                rest[1..].chars().take_while(|&c| c != '"').collect()
            } else {
                rest.chars().take_while(|c| c.is_alphanumeric() || matches!(c, '.' | '_' | '$' | '-')).collect()
            };
            if extra.iter().any(|x| x.strip_prefix("noinline:").is_some_and(|x| exec::glob(&name, x))) {
                let close = match_paren(&s);
                let (a, b) = s.split_at(close + 1);
                let b2 = b.strip_prefix(" unnamed_addr").unwrap_or(b);
                let keep = &b[..b.len() - b2.len()];
                out.extend_from_slice(format!("{}{} noinline{}", a, keep, b2).as_bytes());
                continue;
            }
            if override_for(&name).is_some() || extra.iter().any(|x| exec::glob(&name, x)) {
                n += 1;
                // declaration: drop linkage, personality, section and the brace
                let mut d = s.replacen("define ", "declare ", 1);
                for w in ["internal ", "private ", "linkonce_odr ", "weak_odr ", "weak ", "dso_local ", "unnamed_addr", "hidden "] {
                    d = d.replacen(w, "", 1);
                }
                let close = match_paren(&d);
                let mut d: String = d[..close + 1].to_string();
                d.push('\n');
                out.extend_from_slice(d.as_bytes());
                skip = true;
                continue;
            }
        }
        out.extend_from_slice(l);
    }
    std::fs::write(&a[1], out).unwrap();
    eprintln!("prep: {} functions turned into declarations", n);
}
fn match_paren(s: &str) -> usize {
    let b = s.as_bytes();
    let at = s.find('@').unwrap();
    let mut i = at + 1;
    if b[i] == b'"' {
        i += 1;
        while b[i] != b'"' {
            i += 1
        }
        i += 1;
    }
    while b[i] != b'(' {
        i += 1
    }
    let mut d = 0;
    loop {
        match b[i] {
            b'(' => d += 1,
            b')' => {
                d -= 1;
                if d == 0 {
                    return i;
                }
            }
            _ => {}
        }
        i += 1;
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        eprintln!("usage: symll prep|run ...");
        std::process::exit(2)
    }
    if a[1] == "prep" {
        return prep(&a[2..]);
    }
    // run <ll> <entry> <outdir> key=value...
    // deep recursion over expressions: use a big stack
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || run(a)).unwrap();
    let r = h.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    })
}

extern "C" {
    fn _exit(c: i32) -> !;
}

fn run(a: Vec<String>) -> i32 {
    let t0 = Instant::now();
    let mut cfg = Cfg {
        max_steps: 200_000_000,
        deadline: t0 + Duration::from_secs(600),
        rlimit: 40_000_000,
        workers: 8,
        stop_first: false,
        hash_nop: false,
        max_paths: u64::MAX,
        trace: false,
        outdir: a[4].clone(),
        redirects: vec![],
        nops: vec![],
        vseed: 1,
        fix: vec![],
    };
    for kv in &a[5..] {
        let (k, v) = kv.split_once('=').expect("key=value");
        match k {
            "steps" => cfg.max_steps = v.parse().unwrap(),
            "time" => cfg.deadline = t0 + Duration::from_secs_f64(v.parse().unwrap()),
            "rlimit" => cfg.rlimit = v.parse().unwrap(),
            "workers" => cfg.workers = v.parse().unwrap(),
            "stop" => cfg.stop_first = v == "1",
            "paths" => cfg.max_paths = v.parse().unwrap(),
            "trace" => cfg.trace = v == "1",
            "seed" => cfg.vseed = v.parse().unwrap(),
            "fix" => {
                let (p, t) = v.split_once(':').unwrap();
                cfg.fix.push((p.into(), t.parse().unwrap()));
            }
            "nop" => cfg.nops.push(v.into()),
            "zero" => cfg.nops.push(format!("={}", v)),
            "redirect" => {
                let (p, t) = v.split_once(':').unwrap();
                cfg.redirects.push((p.into(), t.into()));
            }
            _ => {
                eprintln!("unknown option {}", k);
                return 2;
            }
        }
    }
    let src = std::fs::read(&a[2]).expect("ll file");
    let m = ll::Module::load(src);
    std::fs::create_dir_all(&cfg.outdir).unwrap();
    let root = std::process::id();
    let outdir = cfg.outdir.clone();
    let mut ex = Ex::new(&m, cfg);
    let st = ex.initial(&a[3]);
    let load = t0.elapsed().as_secs_f64();
    ex.explore_all(st);
    let bad = ex.finish();
    // write this process's part
    let mut o = String::new();
    let mut put = |k: &str, v: String| o.push_str(&format!("{}\t{}\n", k, v.replace('\n', " ").replace('\t', " ")));
    let s = &ex.st;
    put("paths", s.paths.to_string());
    put("assumed", s.assumed.to_string());
    put("panics_ok", s.panics_ok.to_string());
    put("insts", s.insts.to_string());
    put("forks", s.forks.to_string());
    put("merges", s.merges.to_string());
    put("merge_fail", s.merge_fail.to_string());
    put("enum_decisions", s.enumdec.to_string());
    put("domain_decisions", s.domdec.to_string());
    put("queries", ex.z.queries.to_string());
    put("q_sat", ex.z.sat.to_string());
    put("q_unsat", ex.z.unsat.to_string());
    put("q_unknown", ex.z.unknown.to_string());
    put("solver_us", (ex.z.time_ns / 1000).to_string());
    put("unk_branch", s.unk_branch.to_string());
    put("procs", "1".into());
    for (k, (n, sv, inc)) in &s.checks {
        put("check", format!("{}\u{1}{}\u{1}{}\u{1}{}", k, n, sv, inc));
    }
    for (k, n) in &s.covers {
        put("cover", format!("{}\u{1}{}", k, n));
    }
    for (k, n) in &s.errors {
        put("error", format!("{}\u{1}{}", k, n));
    }
    for (k, n) in &s.incomplete {
        put("incomplete", format!("{}\u{1}{}", k, n));
    }
    for v in &s.violations {
        let ins: Vec<String> = v.inputs.iter().map(|(n, w, x)| format!("{}\u{2}{}\u{2}{}", n, w, *x as i128)).collect();
        put("violation", format!("{}\u{1}{}\u{1}{}\u{1}{}", v.id, ins.join("\u{3}"), v.notes.join("\u{3}"), v.maybe));
    }
    for x in &s.samples {
        put("sample", x.clone());
    }
    for ((f, b), n) in &s.sites {
        put("site", format!("{}:{}\u{1}{}", m.funcs[*f as usize].name, b, n));
    }
    for ((f, b), n) in &s.qsites {
        put("qsite", format!("{}:{}\u{1}{}", m.funcs[*f as usize].name, b, n));
    }
    for (i, t) in ex.touched.iter().enumerate() {
        if *t && m.funcs[i].start != 0 {
            put("func", format!("{}\u{1}1", m.funcs[i].name));
        }
    }
    if bad {
        put("error", "a worker process died\u{1}1".into());
    }
    let me = std::process::id();
    let tmp = format!("{}/{}.part", outdir, me);
    std::fs::write(&tmp, o).unwrap();
    if me != root {
        unsafe { _exit(0) }
    }
    // aggregate
    let mut num: BTreeMap<String, u64> = BTreeMap::new();
    let mut maps: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut checks: BTreeMap<String, (u64, u64, u64)> = BTreeMap::new();
    let mut viol = vec![];
    let mut samples = vec![];
    for e in std::fs::read_dir(&outdir).unwrap() {
        let p = e.unwrap().path();
        if p.extension().map(|x| x != "part").unwrap_or(true) {
            continue;
        }
        let t = std::fs::read_to_string(&p).unwrap();
        let _ = std::fs::remove_file(&p);
        for l in t.lines() {
            let (k, v) = l.split_once('\t').unwrap();
            let f: Vec<&str> = v.split('\u{1}').collect();
            match k {
                "check" => {
                    let c = checks.entry(f[0].into()).or_default();
                    c.0 += f[1].parse::<u64>().unwrap();
                    c.1 += f[2].parse::<u64>().unwrap();
                    c.2 += f[3].parse::<u64>().unwrap();
                }
                "cover" | "error" | "incomplete" | "site" | "qsite" | "func" => {
                    *maps.entry(k.into()).or_default().entry(f[0].into()).or_default() += f[1].parse::<u64>().unwrap();
                }
                "violation" => viol.push(v.to_string()),
                "sample" => samples.push(v.to_string()),
                _ => *num.entry(k.into()).or_default() += v.parse::<u64>().unwrap(),
            }
        }
    }
    let mut j = String::from("{\n");
    for (k, v) in &num {
        j.push_str(&format!(" {}: {},\n", esc(k), v));
    }
    let obj = |m: Option<&BTreeMap<String, u64>>, cap: usize| -> String {
        let mut v: Vec<(&String, &u64)> = m.map(|m| m.iter().collect()).unwrap_or_default();
        v.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
        v.truncate(cap);
        let x: Vec<String> = v.iter().map(|(k, n)| format!("{}: {}", esc(k), n)).collect();
        format!("{{{}}}", x.join(", "))
    };
    for (k, cap) in [("cover", 1000), ("error", 100), ("incomplete", 100), ("site", 25), ("qsite", 25), ("func", 100000)] {
        j.push_str(&format!(" {}: {},\n", esc(k), obj(maps.get(k), cap)));
    }
    let c: Vec<String> = checks.iter().map(|(k, v)| format!("{}: {{\"evaluated\": {}, \"by_solver\": {}, \"inconclusive\": {}}}", esc(k), v.0, v.1, v.2)).collect();
    j.push_str(&format!(" \"checks\": {{{}}},\n", c.join(", ")));
    viol.sort();
    let vs: Vec<String> = viol
        .iter()
        .take(40)
        .map(|v| {
            let f: Vec<&str> = v.split('\u{1}').collect();
            let ins: Vec<String> = f[1]
                .split('\u{3}')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let g: Vec<&str> = x.split('\u{2}').collect();
                    format!("[{}, {}, {}]", esc(g[0]), g[1], esc(g[2]))
                })
                .collect();
            let notes: Vec<String> = f[2].split('\u{3}').filter(|x| !x.is_empty()).map(esc).collect();
            format!("{{\"id\": {}, \"inputs\": [{}], \"notes\": [{}], \"maybe\": {}}}", esc(f[0]), ins.join(", "), notes.join(", "), f[3])
        })
        .collect();
    j.push_str(&format!(" \"violations\": [{}],\n", vs.join(",\n  ")));
    j.push_str(&format!(" \"samples\": [{}],\n", samples.iter().take(20).map(|s| esc(s)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(" \"load_s\": {:.3}, \"wall_s\": {:.3}, \"z3\": {}\n}}\n", load, t0.elapsed().as_secs_f64(), esc(&z3::version())));
    std::fs::write(format!("{}/result.json", outdir), &j).unwrap();
    let _ = std::io::stdout().flush();
    0
}
