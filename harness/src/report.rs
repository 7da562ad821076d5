use crate::tags::*;
use crate::world::{Stats, OP_NAMES};
use std::io::Write;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn line(s: &str) {
    let out = std::io::stdout();
    let mut o = out.lock();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
}

pub fn fail(f: &Fail, engine: &str, fam: &str, item: &str, seed: u64, case: &str) {
    let tags: Vec<String> = names(f.tags).iter().map(|t| esc(t)).collect();
    line(&format!("@FAIL {{\"kind\":{},\"tags\":[{}],\"msg\":{},\"engine\":{},\"fam\":{},\"item\":{},\"seed\":\"{}\",\"case\":{}}}",
        esc(f.kind), tags.join(","), esc(&f.msg), esc(engine), esc(fam), esc(item), seed, esc(case)));
}

/// Where the run is, for the driver to identify a history that crashed.
pub fn progress(seed: u64) {
    if cfg!(miri) {
        if std::env::var("RCSV_PROGRESS").is_ok() { line(&format!("@SEED {}", seed)); }
        return;
    }
    use std::os::unix::fs::FileExt;
    thread_local! { static F: Option<std::fs::File> = std::env::var("RCSV_PROGRESS").ok().and_then(|p| std::fs::OpenOptions::new().create(true).write(true).open(p).ok()); }
    F.with(|f| if let Some(f) = f { let _ = f.write_all_at(&seed.to_le_bytes(), 0); });
}

pub fn sigs(name: &str, set: &std::collections::HashSet<u64>) {
    if let Ok(p) = std::env::var("RCSV_SIGS") {
        let mut v = Vec::with_capacity(set.len() * 8);
        for x in set { v.extend_from_slice(&x.to_le_bytes()); }
        let _ = std::fs::write(format!("{}.{}", p, name), v);
    }
}

pub fn stats(st: &Stats, engine: &str) {
    let mut parts = vec![];
    for (i, n) in st.ops.iter().enumerate() { if *n > 0 { parts.push(format!("{}:{}", esc(&format!("op.{}", OP_NAMES[i])), n)); } }
    for (k, n) in &st.outcomes { parts.push(format!("{}:{}", esc(k), n)); }
    sigs("hist", &st.sigs);
    sigs("state", &st.states);
    line(&format!("@STATS {{\"engine\":{},\"histories\":{},\"nontrivial\":{},\"view_checks\":{},\"drops\":{},\"sigs\":{},\"states\":{},\"counts\":{{{}}}}}",
        esc(engine), st.histories, st.nontrivial, st.checks, st.drops, st.sigs.len(), st.states.len(), parts.join(",")));
}
