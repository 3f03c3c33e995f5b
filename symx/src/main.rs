mod exec;
mod ir;
mod term;
mod z3;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

/// Readable form of a v0-mangled name: the identifiers it contains.
pub fn demangle(s: &str) -> String {
    let b = s.as_bytes();
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator: s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut n = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() && n < 1000 {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + n <= b.len() && n > 0 {
                let id = &s[j..j + n];
                if id.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
                    out.push(id.to_string());
                    i = j + n;
                    continue;
                }
            }
        }
        i += 1;
    }
    out.join("::")
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let mut module = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut shard = (0usize, 1usize);
    let mut secs = 600.0f64;
    let mut sample_every = 64;
    let mut dump_every = 0;
    let mut dump_dir = String::new();
    let mut step_cap = 3_000_000u64;
    let mut depth = 3000usize;
    let mut timeout = 60_000u32;
    let mut repo = String::from("/repo/");
    let mut claim = String::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match &*a {
            "--module" => module = v(),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--shard" => {
                let s = v();
                let (a, b) = s.split_once('/').unwrap();
                shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--secs" => secs = v().parse().unwrap(),
            "--sample-every" => sample_every = v().parse().unwrap(),
            "--dump-every" => dump_every = v().parse().unwrap(),
            "--dump-dir" => dump_dir = v(),
            "--steps" => step_cap = v().parse().unwrap(),
            "--depth" => depth = v().parse().unwrap(),
            "--solver-timeout" => timeout = v().parse().unwrap(),
            "--repo" => repo = v(),
            "--claim" => claim = v(),
            x => panic!("unknown option {}", x),
        }
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&module);
    let load = t0.elapsed().as_secs_f64();
    let z = z3::Solver::new(timeout, dump_every);
    let mut e = exec::Exec::new(m, z);
    e.step_cap = step_cap;
    e.depth_cap = depth;
    e.sample_every = sample_every;
    e.deadline = Some(t0 + Duration::from_secs_f64(secs));
    let st = e.start(&entry);
    e.work.push(st);
    let mut seeded = 0;
    if shard.1 > 1 {
        e.seed(2000);
        seeded = e.work.len();
        if shard.0 != 0 {
            // Paths that ended during the common prefix belong to shard 0.
            e.paths_done = 0;
            e.paths_cut = 0;
            e.paths_bad = 0;
            e.forks = 0;
            e.steps = 0;
            e.asserts = 0;
            e.violations.clear();
            e.samples.clear();
        }
        // The processes that share an entry take the pending states from it
        // in chunks, whoever comes first.
        let w = std::mem::take(&mut e.work);
        let mut chunk = Vec::new();
        let last = w.len();
        for (i, st) in w.into_iter().enumerate() {
            chunk.push(st);
            if chunk.len() < 4 && i + 1 < last {
                continue;
            }
            let mine = if claim.is_empty() {
                (i / 4) % shard.1 == shard.0
            } else {
                std::fs::OpenOptions::new().write(true).create_new(true).open(format!("{}.{}", claim, i / 4)).is_ok()
            };
            let c = std::mem::take(&mut chunk);
            if mine && !e.incomplete {
                e.work = c;
                e.run();
            }
        }
    } else {
        e.run();
    }
    let total = t0.elapsed().as_secs_f64();

    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut fns: BTreeSet<String> = BTreeSet::new();
    let mut other: BTreeSet<String> = BTreeSet::new();
    for d in 0..e.dbg_seen.len() {
        if e.dbg_seen[d] == 0 {
            continue;
        }
        for (file, line, name) in e.loc_chain(d as u32) {
            if file.starts_with(&repo) {
                lines.entry(file[repo.len()..].to_string()).or_default().insert(line);
                fns.insert(format!("{} {}", &file[repo.len()..], demangle(&name)));
            } else if file.contains("/library/") {
                other.insert(demangle(&name));
            }
        }
    }
    let mut j = String::from("{\n");
    let _ = writeln!(j, "\"entry\":{},", js(&entry));
    let _ = writeln!(j, "\"shard\":[{},{}],\"seeded\":{},", shard.0, shard.1, seeded);
    let _ = writeln!(j, "\"solver\":{},", js(&z3::version()));
    let _ = writeln!(
        j,
        "\"paths\":{},\"cut\":{},\"bad\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"assert_queries\":{},\"max_path_steps\":{},\"max_inputs\":{},\"terms\":{},",
        e.paths_done, e.paths_cut, e.paths_bad, e.forks, e.steps, e.asserts, e.assert_queries, e.max_path_steps, e.max_inputs, e.ts.borrow().nodes.len()
    );
    let _ = writeln!(
        j,
        "\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_seconds\":{:.3},\"max_query_seconds\":{:.3},",
        e.z.queries, e.z.cache_hits, e.z.sat, e.z.unsat, e.unknown, e.z.secs, e.z.max_secs
    );
    let _ = writeln!(j, "\"incomplete\":{},\"load_seconds\":{:.3},\"seconds\":{:.3},", e.incomplete, load, total);
    let _ = writeln!(
        j,
        "\"covers\":{{{}}},",
        e.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")
    );
    let _ = writeln!(
        j,
        "\"unsupported\":{{{}}},",
        e.unsupported.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
    );
    let _ = writeln!(
        j,
        "\"violations\":[{}],",
        e.violations
            .iter()
            .map(|v| format!(
                "{{\"kind\":{},\"code\":{},\"msg\":{},\"inputs\":{},\"trace\":[{}]}}",
                js(&v.kind),
                v.code,
                js(&v.msg),
                jl(&v.inputs),
                v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    let _ = writeln!(
        j,
        "\"samples\":[{}],",
        e.samples
            .iter()
            .map(|s| format!("{{\"inputs\":{},\"obs\":{}}}", jl(&s.inputs), jl(&s.obs)))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    let _ = writeln!(
        j,
        "\"repo_lines\":{{{}}},",
        lines
            .iter()
            .map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = writeln!(j, "\"repo_functions\":[{}],", fns.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
    let _ = writeln!(j, "\"library_functions\":{}", other.len());
    j.push_str("}\n");
    if !dump_dir.is_empty() {
        for (i, (text, sat)) in e.z.dumped.iter().enumerate() {
            let p = format!("{}/{}-{}-{}-{}.smt2", dump_dir, entry, shard.0, i, if *sat { "sat" } else { "unsat" });
            let _ = std::fs::write(p, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", text));
        }
    }
    if out.is_empty() {
        print!("{}", j);
    } else {
        std::fs::write(&out, j).expect("write report");
    }
}
