//! The conformance harness on the real runtime: the same model and replay, another vm.
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/replay.rs"]
mod replay;
mod vm;

use serde_json::{json, Value};
use std::io::Write;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("replay") => replay_dir(&args[1], &args[2], &args[3], &args[4]),
        _ => {
            eprintln!("usage: conformance replay TRACE_DIR CASES_OUT STATS_OUT SALT");
            std::process::exit(2);
        }
    }
}

/// Replays every ITF trace of a directory; writes the diverging steps (one JSON object per line) and statistics.
fn replay_dir(dir: &str, out: &str, stats: &str, salt: &str) {
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.to_string_lossy().ends_with(".itf.json"))
        .collect();
    files.sort();
    let mut r = replay::Replayer::new();
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut total = 0;
    for p in &files {
        let id = p.file_name().unwrap().to_string_lossy().replace(".itf.json", "");
        let v: Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
        let mut cases = vec![];
        if total < 2000 {
            let vectors = v["states"][0].as_object().map(|o| o.keys().any(|k| k == "vecs" || k.ends_with("::vecs")));
            if v["edges"].is_array() {
                r.graph(&id, &v, &format!("{salt}/{id}"), &mut cases);
            } else if vectors == Some(true) {
                r.vectors(&id, &v, &format!("{salt}/{id}"), &mut cases);
            } else {
                r.trace(&id, &v, &format!("{salt}/{id}"), &mut cases);
            }
        }
        total += cases.len();
        for c in cases {
            writeln!(f, "{c}").unwrap();
        }
    }
    let s = &r.stats;
    std::fs::write(format!("{stats}.steps"), r.log.join("\n")).unwrap();
    std::fs::write(
        stats,
        json!({"traces": s.traces, "steps": s.steps, "accepted": s.txs_ok, "rejected": s.txs_rejected,
               "instructions": s.ixs, "instructions_ok": s.ixs_ok,
               "codes": s.codes.iter().map(|(k, v)| (k.to_string(), *v)).collect::<std::collections::BTreeMap<_, _>>(),
               "divergences": s.divergences})
        .to_string(),
    )
    .unwrap();
}
