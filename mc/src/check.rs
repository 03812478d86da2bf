//! Running a property: enumeration, verdict, known findings, replay files and evidence.
use crate::engine::*;
use crate::explore::Space;
use crate::props::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;

fn root() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// Keys listed in the known-findings file for one property: `known: property=<id> <key> :: <why>`.
fn known(id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for l in t.lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let Some((p, r)) = r.split_once(' ') else { continue };
        if p == id {
            let (k, why) = r.split_once(" :: ").unwrap_or((r, ""));
            m.insert(k.trim().to_string(), why.trim().to_string());
        }
    }
    m
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn workers() -> usize {
    std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).min(NSLOT)
}

/// Key without what a known finding does not depend on.
fn finding_key(id: &str, key: &str) -> String {
    if id == "C04" {
        key.split(' ').filter(|t| !t.starts_with("backend=")).collect::<Vec<_>>().join(" ")
    } else {
        key.to_string()
    }
}

/// Enumerate the whole space of a property; how many functions each stage covered.
pub fn explore(pr: &Prop, sh: &'static Shared, seed: u32) -> Vec<(&'static str, usize)> {
    let only = std::env::var("MC_STAGE").ok();
    let ops = all_ops_vec();
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    let mut nops = vec![];
    for (si, st) in pr.stages.iter().enumerate() {
        if only.as_ref().is_some_and(|o| o != st.name) {
            continue;
        }
        let sel: Vec<usize> = (0..ops.len()).filter(|&i| (st.ops)(&ops[i])).collect();
        nops.push((st.name, sel.len()));
        let mut ws = st.space.ws.clone();
        ws.sort_by(|a, b| b.cmp(a));
        for w in ws {
            for &o in &sel {
                jobs.push((si, o, w));
            }
        }
    }
    // expensive jobs first, so that the workers finish together; before all others those that need a
    // worker in which no function of the library has run yet
    let cost = |j: &(usize, usize, usize)| {
        let s = &pr.stages[j.0].space;
        j.2.max(1) * s.hs.iter().sum::<usize>() * s.fills.len() * s.matrices.len() * s.lays.len()
    };
    jobs.sort_by_key(|j| (!pr.stages[j.0].name.starts_with("first-"), std::cmp::Reverse(cost(j))));
    let every = (jobs.len() / 20).max(1);
    // (mutation campaign only) stop at the first violation
    let first = std::env::var("MC_FIRST").is_ok() && known(pr.id).is_empty();
    pool(sh, workers(), pr.id, seed, jobs.len(), &|ctx, j| {
        if first && sh.vlen.load(SeqCst) > 0 {
            return;
        }
        let (si, op, w) = jobs[j];
        let st = &pr.stages[si];
        ctx.stage = st.name;
        ctx.want_sample = j % every == 0;
        run_job(ctx, st, op, w, &st.space);
    });
    nops
}

pub fn check(id: &str, tier: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let thorough = tier == "thorough";
    let ps = props(thorough);
    let Some(pr) = ps.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed: u32 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let sh = shared();
    let table = root().join("target").join(format!("c29.{}.table", std::process::id()));
    if id == "C29" {
        std::fs::create_dir_all(root().join("target")).expect("target directory");
        crate::vary::open(table.to_str().unwrap(), true);
    }
    let nops = explore(pr, sh, seed);
    let mut variants = vec![];
    if id == "C29" {
        for v in std::env::var("MC_VARIANTS").unwrap_or_default().split_whitespace() {
            variants.push(crate::vary::run_variant(v, tier, sh));
        }
        let _ = std::fs::remove_file(&table);
        if variants.is_empty() {
            eprintln!("MC_VARIANTS names no variant binaries");
            return 2;
        }
    }
    let kn = known(id);
    let mut seen_known: BTreeMap<String, usize> = BTreeMap::new();
    let mut viol: BTreeMap<String, (String, String)> = BTreeMap::new();
    for (k, c, d) in sh.records() {
        let fk = finding_key(id, &k);
        if kn.contains_key(&fk) {
            *seen_known.entry(fk).or_insert(0) += 1;
        } else {
            viol.entry(fk).or_insert((c, d));
        }
    }
    for (k, n) in &seen_known {
        println!("KNOWN-FINDING: property={id} {k} ({}) seen {n}x", kn[k]);
    }
    let dir = root().join("replays").join(id);
    let _ = std::fs::remove_dir_all(&dir);
    let mut shown = 0;
    if !viol.is_empty() {
        std::fs::create_dir_all(&dir).expect("replay directory");
    }
    for (n, (k, (c, d))) in viol.iter().enumerate() {
        if n >= 20000 {
            break;
        }
        let f = dir.join(format!("{n}.replay"));
        std::fs::write(&f, format!("property={id}\ntier={tier}\nkey={k}\ncase={c}\ndetail={d}\n")).expect("write replay");
        if shown < 12 {
            println!("{k}: {d}\n  {c}");
            println!("VIOLATION property={id} replay={}", f.display());
            shown += 1;
        }
    }
    if viol.len() > shown {
        println!("... and {} more, see {}", viol.len() - shown, dir.display());
    }
    let (states, execs, compared) = (sh.states.load(SeqCst), sh.execs.load(SeqCst), sh.compared.load(SeqCst));
    let lost = sh.vlen.load(SeqCst) > VBUF;
    if lost {
        println!("note: more findings than the buffer holds");
    }
    let be = {
        let c = crate::cpu::Cpu::new();
        c.backends().iter().map(|&b| crate::cpu::BACKENDS[b].name).collect::<Vec<_>>()
    };
    let mut cov: Vec<String> = pr
        .stages
        .iter()
        .map(|st| {
            let s: &Space = &st.space;
            let n = nops.iter().find(|x| x.0 == st.name).map(|x| x.1).unwrap_or(0);
            js(&format!(
                "{}: {n} functions x widths {} x heights {:?} x fills {:?} x layouts {} x matrices {:?} x ranges {:?} x modes {:?} x depths {:?}",
                st.name,
                if s.ws.len() > 30 { format!("{}..={}", s.ws[0], s.ws[s.ws.len() - 1]) } else { format!("{:?}", s.ws) },
                s.hs,
                if s.fills.len() > 8 { format!("{} contents", s.fills.len()) } else { format!("{:?}", s.fills) },
                s.lays.len(),
                s.matrices,
                s.ranges,
                s.modes,
                s.depths
            ))
        })
        .collect();
    cov.extend(variants.iter().map(|v| js(&format!("variant {v}"))));
    let samples: Vec<String> = sh.sample_list().iter().map(|s| js(s)).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {execs},\n  \"traces_validated_against_impl\": {compared},\n  \"sample_values_compared\": {},\n  \"exhaustive\": true,\n  \"explanation\": {},\n  \"bounds\": [{}],\n  \"cpu_paths_executed\": [{}],\n  \"known_findings_seen\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
        js(id),
        js(tier),
        sh.samples.load(SeqCst),
        js(&format!("{}. states: distinct (function, size, content, parameter) points enumerated; transitions: executions of the real function on them, one per CPU path and buffer layout; traces_validated_against_impl: executions whose complete result was compared with the model or a related execution. The listed space was enumerated completely.", pr.about)),
        cov.join(",\n   "),
        be.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        seen_known.len(),
        samples.join(",\n   "),
        js(if cfg!(feature = "neon") {
            "NEON intrinsics are emulated (neon/emu, after Arm's pseudocode); the source is otherwise compiled as it is, for x86-64 little-endian"
        } else {
            "x86-64 code only (NEON: C34, C35; WebAssembly: C33); CPU paths the machine lacks are not executed"
        }),
        viol.len()
    );
    let evf = root().join("evidence");
    std::fs::create_dir_all(&evf).expect("evidence directory");
    std::fs::write(evf.join(format!("{id}.json")), ev).expect("write evidence");
    println!("{id} {tier}: {states} states, {execs} executions, {compared} compared, {} violations, {} known findings, {wall:.1} s", viol.len(), seen_known.len());
    if viol.is_empty() { 0 } else { 1 }
}

/// Re-run the job a replay file names: same stage, function and width, all its heights and contents.
pub fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let (id, tier, case) = (get("property="), get("tier="), get("case="));
    let f = |k: &str| case.split(' ').find_map(|x| x.strip_prefix(k)).unwrap_or("").to_string();
    let ps = props(tier == "thorough");
    let pr = ps.iter().find(|p| p.id == id).expect("property");
    let ops = all_ops_vec();
    let op = ops.iter().position(|o| o.name == f("op=")).expect("function");
    let w: usize = f("w=").parse().expect("width");
    let stage = f("stage=");
    let sh = shared();
    for st in pr.stages.iter().filter(|s| stage.is_empty() || s.name == stage) {
        if !(st.ops)(&ops[op]) && !matches!(st.kind, Kind::Custom(_)) {
            continue;
        }
        let sel: Vec<usize> = if (st.ops)(&ops[op]) { vec![op] } else { (0..ops.len()).filter(|&i| (st.ops)(&ops[i])).collect() };
        let ws: Vec<usize> = if st.space.ws.contains(&w) { vec![w] } else { st.space.ws.clone() };
        let jobs: Vec<(usize, usize)> = sel.iter().flat_map(|&o| ws.iter().map(move |&w| (o, w))).collect();
        sh.next.store(0, SeqCst);
        pool(sh, workers(), &id, 1, jobs.len(), &|ctx, j| {
            ctx.stage = st.name;
            run_job(ctx, st, jobs[j].0, jobs[j].1, &st.space);
        });
    }
    let rec = sh.records();
    for (k, c, d) in &rec {
        println!("{k}: {d}\n  {c}");
    }
    if rec.is_empty() {
        println!("not reproduced");
        0
    } else {
        println!("VIOLATION property={id} replay={file}");
        1
    }
}

fn all_ops_vec() -> Vec<crate::fmt::Op> {
    crate::fmt::all_ops()
}
