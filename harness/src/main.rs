#![allow(clippy::type_complexity)]
mod ctx;
mod fields;
mod props;
mod rec;
mod solve;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut prop = String::new();
    let mut thorough = false;
    let mut seed = 1u64;
    let mut only: Option<String> = None;
    let mut budget = 100.0f64;
    let mut list = false;
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--prop" => prop = a.next().unwrap(),
            "--tier" => thorough = a.next().unwrap() == "thorough",
            "--seed" => seed = a.next().unwrap().parse().unwrap(),
            "--only" => only = a.next(),
            "--budget" => budget = a.next().unwrap().parse().unwrap(),
            "--dict" => {
                let mut v: Vec<u64> = vec![];
                for x in a.next().unwrap().split(',').filter(|x| !x.is_empty()) {
                    let d: u64 = x.parse().unwrap();
                    for e in [d, d.wrapping_add(1), d.wrapping_sub(1)] {
                        if !v.contains(&e) {
                            v.push(e);
                        }
                    }
                }
                ctx::DICT.set(v).unwrap();
            }
            "--first" => ctx::FIRST.store(true, std::sync::atomic::Ordering::SeqCst),
            "--list" => list = true,
            _ => panic!("unknown argument {x}"),
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
        ctx::LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
    let t0 = std::time::Instant::now();
    let mut ctx = ctx::Ctx::new(thorough, seed);
    if !props::fill(&prop, &mut ctx) {
        println!("{{\"error\": \"unknown property {prop}\"}}");
        std::process::exit(2);
    }
    if list {
        for c in &ctx.cases {
            println!("{}", c.0);
        }
        return;
    }
    let rep = ctx::run_all(ctx, budget, only.as_deref());
    let v: Vec<String> = rep.viol.iter().map(|(i, m)| format!("{{\"case\":{},\"what\":{}}}", esc(i), esc(m))).collect();
    let s: Vec<String> = rep.samples.iter().map(|i| esc(i)).collect();
    let sl: Vec<String> = rep.slow.iter().map(|(t, i)| format!("[{t:.2},{}]", esc(i))).collect();
    println!(
        "{{\"property\":{},\"cases\":{},\"skipped\":{},\"partial\":{},\"evaluations\":{},\"wall_s\":{:.2},\"samples\":[{}],\"slow\":[{}],\"violations\":[{}]}}",
        esc(&prop), rep.cases, rep.skipped, rep.partial, rep.evals, t0.elapsed().as_secs_f64(), s.join(","), sl.join(","), v.join(",\n")
    );
}
