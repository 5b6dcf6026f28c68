mod bits;
mod bv;
mod exec;
mod ll;
mod mem;
mod z3;
use exec::*;

fn esc(s: &str) -> String {
    s.chars()
        .flat_map(|c| match c {
            '"' => "\\\"".chars().collect::<Vec<_>>(),
            '\\' => "\\\\".chars().collect(),
            '\n' => "\\n".chars().collect(),
            c if (c as u32) < 32 => format!("\\u{:04x}", c as u32).chars().collect(),
            c => vec![c],
        })
        .collect()
}
fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let mut opt = |k: &str| -> Option<String> {
        let i = args.iter().position(|a| a == k)?;
        args.remove(i);
        Some(args.remove(i))
    };
    let conf = Conf {
        merge: opt("--merge").map_or(true, |x| x == "1"),
        merge_pop: opt("--merge-pop").map_or(1, |x| x.parse().unwrap()),
        merge_words: opt("--merge-words").map_or(false, |x| x == "1"),
        max_steps: opt("--max-steps").map_or(4_000_000_000, |x| x.parse().unwrap()),
        max_paths: opt("--max-paths").map_or(1_000_000, |x| x.parse().unwrap()),
        max_total: opt("--max-total").map_or(u64::MAX, |x| x.parse().unwrap()),
        max_secs: opt("--max-secs").map_or(800.0, |x| x.parse().unwrap()),
        region_budget: opt("--region").map_or(20_000, |x| x.parse().unwrap()),
        concrete: opt("--concrete").map(|f| std::fs::read_to_string(f).unwrap().chars().filter(|c| *c == '0' || *c == '1').map(|c| c == '1').collect()),
        sample_every: opt("--sample-every").map_or(1, |x| x.parse().unwrap()),
        max_samples: opt("--samples").map_or(2, |x| x.parse().unwrap()),
        audit: opt("--audit").map_or(0, |x| x.parse().unwrap()),
        plain: opt("--plain").map_or(false, |x| x == "1"),
        trace: opt("--trace").is_some(),
    };
    let timeout = opt("--timeout").map_or(60_000, |x| x.parse().unwrap());
    let ll = args[0].clone();
    let entry = args[1].clone();
    let params: Vec<u64> = args[2..].iter().map(|x| x.parse().unwrap_or_else(|_| x.parse::<i64>().unwrap() as u64)).collect();
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            let t0 = std::time::Instant::now();
            let m = ll::Module::load(&ll);
            let mut e = Exec::new(m, conf, params, timeout);
            e.start(&entry);
            report(&e, t0.elapsed().as_secs_f64());
            let code = if e.error.is_some() {
                2
            } else if e.viol.is_some() {
                1
            } else {
                0
            };
            std::process::exit(code);
        })
        .unwrap();
    let _ = h.join();
    std::process::exit(3);
}
fn report(e: &Exec, t: f64) {
    let mut s = String::from("{");
    let status = if e.error.is_some() {
        "error"
    } else if e.viol.is_some() {
        "violation"
    } else {
        "ok"
    };
    s += &format!("\"status\":\"{}\",\"error\":\"{}\",\"time\":{:.3},", status, esc(e.error.as_deref().unwrap_or("")), t);
    let c = &e.ct;
    s += &format!(
        "\"paths\":{},\"steps\":{},\"forks\":{},\"merges\":{},\"merge_refused\":{},\"checks\":{},\"checks_const\":{},\"checks_tt\":{},\"checks_smt\":{},\"branch_sym\":{},\"tt_decisions\":{},\"lin_decisions\":{},\"audited\":{},\"audit_unknown\":{},\"conc\":{},\"dead\":{},\"panics\":{},",
        c.paths, c.steps, c.forks, c.merges, c.merge_refused, c.checks, c.checks_const, c.checks_tt, c.checks_smt, c.branch_sym, c.tt_dec, c.lin_dec, c.audited, c.audit_unknown, c.conc, c.dead, c.panics
    );
    let q = &e.smt.st;
    s += &format!(
        "\"solver\":\"{}\",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_time\":{:.3},\"solver_max\":{:.3},\"max_cone\":{},\"atoms\":{},\"inputs\":{},",
        esc(&z3::version()),
        q.queries,
        q.sat,
        q.unsat,
        q.unknown,
        q.time,
        q.max_time,
        q.max_cone,
        e.cx.atoms.len(),
        e.cx.inputs.len()
    );
    s += &format!("\"notes\":{{{}}},", e.notes.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    s += &format!("\"check_ids\":{{{}}},", e.check_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    s += &format!("\"funcs\":[{}],", e.funcs.iter().map(|f| format!("\"{}\"", esc(f))).collect::<Vec<_>>().join(","));
    s += &format!(
        "\"samples\":[{}],",
        e.samples.iter().map(|f| format!("{{\"bits\":\"{}\",\"outs\":[{}],\"panic\":{}}}", f.bits, f.outs.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(","), f.panic)).collect::<Vec<_>>().join(",")
    );
    if let Some(v) = &e.viol {
        s += &format!(
            "\"violation\":{{\"kind\":\"{}\",\"what\":\"{}\",\"bits\":\"{}\",\"stack\":[{}]}},",
            v.kind,
            esc(&v.what),
            v.bits,
            v.stack.iter().map(|f| format!("\"{}\"", esc(f))).collect::<Vec<_>>().join(",")
        );
    }
    let mut pr: Vec<_> = e.profile.iter().collect();
    pr.sort_by(|a, b| b.1.cmp(a.1));
    s += &format!("\"profile\":[{}]", pr.iter().take(30).map(|(k, v)| format!("\"{} x{}\"", esc(k), v)).collect::<Vec<_>>().join(","));
    s += "}";
    println!("{}", s);
}
