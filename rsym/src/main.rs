mod dbg;
mod exec;
mod expr;
mod ll;
mod lower;
mod mem;
mod solver;

use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn real_main() {
    // rsym FILE.ll ENTRY [--param N]... [options] ; JSON on stdout
    let a: Vec<String> = std::env::args().collect();
    let mut params = vec![];
    let mut lim = exec::Lim {
        max_paths: 1_000_000,
        max_steps: 300_000_000,
        max_alloc: 64 << 20,
        max_cand: 256,
        samples: 6,
        deadline: None,
        max_inputs: 65536,
    };
    let t0 = Instant::now();
    let mut prof = false;
    let mut table_bits = 8;
    let mut qtimeout = 60_000;
    let mut i = 3;
    while i < a.len() {
        let n: u64 = a.get(i + 1).and_then(|s| s.parse().ok()).unwrap_or(0);
        match a[i].as_str() {
            "--param" => params.push(n),
            "--time" => lim.deadline = Some(t0 + Duration::from_secs(n)),
            "--paths" => lim.max_paths = n,
            "--steps" => lim.max_steps = n,
            "--alloc" => lim.max_alloc = n,
            "--cand" => lim.max_cand = n,
            "--samples" => lim.samples = n as usize,
            "--inputs" => lim.max_inputs = n as u32,
            "--table-bits" => table_bits = n as u32,
            "--query-timeout" => qtimeout = n as u32 * 1000,
            "--prof" => {
                prof = true;
                i -= 1;
            }
            x => {
                eprintln!("unknown option {x}");
                std::process::exit(3);
            }
        }
        i += 2;
    }
    let m = ll::Module::load(&a[1]).expect("reading IR");
    let pr = lower::Prog::new(m);
    let fid = match pr.fid.get(&a[2]) {
        Some(&f) => f,
        None => {
            eprintln!("no function {} in the IR", a[2]);
            std::process::exit(3);
        }
    };
    let load = t0.elapsed().as_secs_f64();
    let mut x = exec::Exec::new(pr, lim, params);
    x.p.table_bits = table_bits;
    x.s.timeout_ms = qtimeout;
    let st = x.initial(fid);
    x.explore(st);
    let mut o = String::from("{");
    let _ = write!(o, "\"paths\":{},\"forks\":{},\"merges\":{},\"steps\":{},", x.paths, x.forks, x.merges, x.steps);
    let _ = write!(o, "\"asserts\":{},\"asserts_const\":{},\"reach\":\"{:x}\",", x.asserts, x.assert_const, x.reach);
    let s = &x.s.stats;
    let _ = write!(
        o,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},",
        s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.model_hits, s.secs, s.max_secs
    );
    let _ = write!(o, "\"nodes\":{},\"load_s\":{:.3},\"wall_s\":{:.3},", x.p.n.len(), load, t0.elapsed().as_secs_f64());
    let m: Vec<String> = x.outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(o, "\"outcomes\":{{{}}},", m.join(","));
    let m: Vec<String> = x.incomplete.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(o, "\"incomplete\":{{{}}},", m.join(","));
    let m: Vec<String> = x
        .viols
        .values()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|s| js(s)).collect();
            format!(
                "{{\"sig\":{},\"kind\":{},\"msg\":{},\"input\":\"{}\",\"count\":{},\"stack\":[{}]}}",
                js(&v.sig),
                js(&v.kind),
                js(&v.msg),
                hex(&v.input),
                v.count,
                st.join(",")
            )
        })
        .collect();
    let _ = write!(o, "\"violations\":[{}],", m.join(","));
    let m: Vec<String> = x
        .samples
        .iter()
        .map(|v| {
            format!(
                "{{\"outcome\":{},\"input\":\"{}\",\"obs\":\"{}\",\"reach\":\"{:x}\"}}",
                js(&v.outcome),
                hex(&v.input),
                hex(&v.obs),
                v.reach
            )
        })
        .collect();
    let _ = write!(o, "\"samples\":[{}],", m.join(","));
    // functions of the code under test whose instructions were part of the encoded code
    let names: Vec<String> = x.fnsteps.keys().map(|&f| x.pr.fnames[f as usize].clone()).collect();
    let fns = dbg::functions(&x.pr.m, &names);
    let m: Vec<String> = fns.iter().map(|s| js(s)).collect();
    let _ = write!(o, "\"functions\":[{}]}}", m.join(","));
    println!("{o}");
    if prof {
        let mut v: Vec<(&(u32, u32), &u64)> = x.prof.iter().collect();
        v.sort_by_key(|z| std::cmp::Reverse(*z.1));
        for ((f, pc), n) in v.iter().take(25) {
            let fu = x.pr.funcs[*f as usize].clone().unwrap();
            let c = format!("{:?}", fu.code[*pc as usize]);
            eprintln!("{n:6} {}:{} {}", fu.short, pc, &c[..c.len().min(120)]);
        }
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(4);
    }
}
