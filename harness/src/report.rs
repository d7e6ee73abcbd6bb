//! Property dispatch, evidence, violations and known findings.
use crate::engine::*;
use crate::props;
use std::fs;
use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
/// known_findings.txt: lines "known: property=<id> <identity> | <text>"
fn known(id: &str) -> Vec<(String, String)> {
    let p = format!("{}/known_findings.txt", root());
    let mut v = vec![];
    for line in fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = line.strip_prefix("known: ") {
            if let Some(r) = r.strip_prefix(&format!("property={} ", id)) {
                let (a, b) = r.split_once(" | ").unwrap_or((r, ""));
                v.push((a.trim().to_string(), b.trim().to_string()));
            }
        }
    }
    v
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
pub fn run(id: &str, tier: Tier) -> i32 {
    let Some(p) = props::ALL.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let log2 = if tier == Tier::Quick { p.log2.0 } else { p.log2.1 };
    let ctx = Ctx::new(id, tier, log2, known(id));
    watchdog(Some(&ctx));
    (p.run)(&ctx);
    finish(&ctx, p.exhaustive, p.assumptions)
}
pub fn finish(ctx: &Ctx, bounds: &str, assumptions: &[&str]) -> i32 {
    let root = root();
    let wall = ctx.start.elapsed().as_secs_f64();
    let viol = ctx.violations.lock().unwrap();
    let nviol = ctx.vcount.load(Relaxed);
    let fam = ctx.families.lock().unwrap();
    let famj: Vec<String> = fam
        .iter()
        .map(|(k, v)| format!("{{\"family\":\"{}\",\"states\":{},\"transitions\":{}}}", esc(k), v.0, v.1))
        .collect();
    let samples: Vec<String> = ctx.samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let notes: Vec<String> = ctx.notes.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let assume: Vec<String> = assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let sat = ctx.visited.saturated.load(Relaxed);
    let stopped = ctx.stop.load(Relaxed);
    let j = format!(
        "{{\n\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\n\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes_at_least\":{},\"exhaustive\":{},\"bounds\":\"{}\",\"visited_set_saturated\":{},\n\"families\":[{}],\n\"samples\":[{}],\n\"notes\":[{}]}},\n\"assumptions\":[{}],\n\"wall_s\":{:.3},\"violations\":{}\n}}\n",
        ctx.id,
        if ctx.thorough() { "thorough" } else { "quick" },
        ctx.seed,
        ctx.states.load(Relaxed),
        ctx.transitions.load(Relaxed),
        ctx.traces.load(Relaxed),
        ctx.distinct_outcomes(),
        !stopped,
        esc(bounds),
        sat,
        famj.join(",\n"),
        samples.join(",\n"),
        notes.join(","),
        assume.join(","),
        wall,
        nviol
    );
    fs::create_dir_all(format!("{}/evidence", root)).ok();
    fs::write(format!("{}/evidence/{}.json", root, ctx.id), j).expect("write evidence");
    for (i, n) in ctx.known_hit.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {} [{}] (seen {} times)", ctx.id, ctx.known[*i].1, ctx.known[*i].0, n);
    }
    println!(
        "{}: states={} transitions={} traces={} outcomes>={} wall={:.1}s{}",
        ctx.id,
        ctx.states.load(Relaxed),
        ctx.transitions.load(Relaxed),
        ctx.traces.load(Relaxed),
        ctx.distinct_outcomes(),
        wall,
        if stopped { " (stopped early after many violations)" } else { "" }
    );
    if nviol == 0 {
        return 0;
    }
    // keep the smallest case first
    let mut order: Vec<usize> = (0..viol.len()).collect();
    order.sort_by_key(|&i| (viol[i].case.identity().len(), viol[i].case.identity()));
    let dir = format!("{}/replays", root);
    fs::create_dir_all(&dir).ok();
    for (n, &i) in order.iter().take(5).enumerate() {
        let path = format!("{}/{}-{}.case", dir, ctx.id, n);
        let mut f = fs::File::create(&path).expect("replay file");
        for (k, v) in &viol[i].case.0 {
            writeln!(f, "{}={}", k, v).unwrap();
        }
        writeln!(f, "# {}", viol[i].msg.replace('\n', " ")).unwrap();
        println!("  {} : {}", viol[i].case.identity().chars().take(300).collect::<String>(), viol[i].msg);
        println!("VIOLATION property={} replay={}", ctx.id, path);
    }
    println!("{} violating executions in total", nviol);
    1
}
pub fn load_case(path: &str) -> Case {
    let s = fs::read_to_string(path).expect("replay file");
    Case(
        s.lines()
            .filter(|l| !l.starts_with('#'))
            .filter_map(|l| l.split_once('='))
            .map(|(a, b)| (a.to_string(), b.to_string()))
            .collect(),
    )
}
pub fn replay(path: &str) -> i32 {
    let c = load_case(path);
    watchdog(None);
    match props::replay(&c) {
        Ok(s) => {
            println!("{}\nnot reproduced: behaves as the model", s);
            0
        }
        Err(s) => {
            println!("{}\nREPRODUCED", s);
            1
        }
    }
}
