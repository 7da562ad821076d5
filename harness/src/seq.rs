//! Driver for the sequential monitor: generates tapes, runs them, reports.

use crate::fam::{ArcF, Fam, RcF};
use crate::items::*;
use crate::rng::{mix, Rng};
use crate::tags::*;
use crate::world::*;
use crate::report;

pub struct Case { pub max_len: usize, pub max_handles: usize, pub order: u64, pub tape: Tape }

impl Case {
    pub fn text(&self) -> String {
        let mut s = format!("{} {} {}\n", self.max_len, self.max_handles, self.order);
        for o in &self.tape { s.push_str(&format!("{} {} {} {}\n", o[0], o[1], o[2], o[3])); }
        s
    }
    pub fn parse(t: &str) -> Case {
        let mut it = t.lines().filter(|l| !l.trim().is_empty()).map(|l| l.split_whitespace().map(|x| x.parse::<u64>().unwrap()).collect::<Vec<_>>());
        let h = it.next().expect("empty case");
        Case { max_len: h[0] as usize, max_handles: h[1] as usize, order: h[2], tape: it.map(|v| [v[0] as u32, v[1] as u32, v[2] as u32, v[3] as u32]).collect() }
    }
}

fn weight(o: O, prof: &str) -> u32 {
    use O::*;
    // The general mix
    let base = match o {
        NewS => 5, NewM => 3, CloneS => 6, CloneLeft => 8, CloneRight => 8, SplitL => 5, SplitR => 5, SParts => 3, PNext => 6,
        PNextBack => 6, PClone => 2, PMisc => 1, PConsume => 1, GetMut => 8, IntoMut => 8, Downgrade => 6, WNew => 1, WClone => 2,
        Upgrade => 8, DropAny => 4, DropS => 14, DropW => 4, MSplitL => 3, MSplitR => 3, MIntoImmut => 5, MWrite => 3, MIntoIter => 3,
        MParts => 3, MClone => 1, INext => 4, INextBack => 4, ISplitFrom => 3, ISplitTo => 3, IWrite => 2, IMisc => 1, IConsume => 1,
        MPNext => 4, MPNextBack => 4, MPWrite => 2, MPConsume => 1, Invalid => 1, ArmDrop => 0, ArmClone => 0, ArmCollect => 0, Nth => 2,
    };
    let up = |list: &[O], f: u32| if list.contains(&o) { f } else { 1 };
    match prof {
        // Ownership in the immutable tree
        "tree" => base * up(&[CloneLeft, CloneRight, SplitL, SplitR, DropS], 3),
        "view" => base * up(&[NewS, CloneLeft, CloneRight, SplitL, SplitR, IntoMut, MIntoImmut, MSplitL, MSplitR], 3),
        "parts" => base * up(&[SParts, MParts, PNext, PNextBack, PClone, PMisc, PConsume, MPNext, MPNextBack, MPWrite, MPConsume, Nth], 5) * up(&[NewM], 2),
        "grant" => base * up(&[GetMut, IntoMut, Downgrade, DropS, DropW, CloneLeft, CloneRight, Upgrade], 3) * up(&[MIntoImmut], 3),
        "weak" => base * up(&[Downgrade, Upgrade, WClone, DropS, CloneLeft, CloneRight, IntoMut], 4) * up(&[MIntoImmut, WNew], 2),
        "mut" => base * up(&[NewM, IntoMut, MSplitL, MSplitR, MIntoImmut, MWrite, MClone, MParts, MPNext, MPNextBack, MPWrite, MPConsume], 4),
        "iter" => base * up(&[NewM, MIntoIter, INext, INextBack, ISplitFrom, ISplitTo, IWrite, IMisc, IConsume, Nth], 5) * up(&[IntoMut, MSplitL, MSplitR], 2),
        "panic" => match o { ArmDrop => 25, ArmClone => 12, ArmCollect => 4, Invalid => 14, NewM => 8, MIntoIter => 8, _ => base },
        _ => base,
    }
}

pub fn gen(seed: u64, prof: &str, max_ops: usize, max_len: usize) -> Case {
    let mut r = Rng::new(seed);
    // An array of operations, each as often as its weight says
    let mut table: Vec<u32> = Vec::with_capacity(600);
    // Swarm: each history leaves out some operations
    let swarm = r.chance(1, 2);
    for (i, &o) in OPS.iter().enumerate() {
        let mut w = weight(o, prof);
        if swarm && !matches!(o, O::NewS | O::NewM | O::DropS) && r.chance(1, 3) { w = 0; }
        table.resize(table.len() + w as usize, i as u32);
    }
    // Now and then a long one
    let max_ops = if r.chance(1, 10) { max_ops * 4 } else { max_ops };
    let n = 2 + r.below(max_ops.max(3));
    let mut tape = vec![];
    let max_len = 1 + r.below(max_len);
    let draw = |r: &mut Rng| table[r.below(table.len())];
    // Start with something to work on
    let first = if matches!(prof, "mut" | "iter") || r.chance(1, 4) { O::NewM } else { O::NewS };
    tape.push([first as u32, r.u64() as u32 >> 4, r.u64() as u32 >> 4, 1]);
    while tape.len() < n {
        tape.push([draw(&mut r), r.u64() as u32 >> 4, r.u64() as u32 >> 4, r.u64() as u32 >> 4]);
    }
    Case { max_len, max_handles: 4 + r.below(20), order: r.u64() >> 8, tape }
}

pub fn run_case<F: Fam, T: Item>(case: &Case, st: &mut Stats, trace: bool) -> (Res, Option<String>) {
    if crate::alloc::SHADOW { crate::alloc::reset_live(); crate::alloc::take_errs(); }
    let mut w = World::<F, T>::new(st);
    w.max_len = case.max_len;
    w.max_handles = case.max_handles;
    if trace { w.trace = Some(String::new()); }
    let r = (|| {
        for &op in &case.tape { w.step(op)?; }
        w.finish(case.order)
    })();
    let t = w.trace.take();
    if r.is_err() { w.abandon(); }
    (r, t)
}

pub struct Args { pub fam: String, pub item: String, pub prof: String, pub seed: u64, pub count: u64, pub max_ops: usize, pub max_len: usize, pub secs: f64 }

macro_rules! dispatch {
    ($fam:expr, $item:expr, $f:ident, ($($arg:expr),*)) => {
        match ($fam, $item) {
            ("rc", "tok") => $f::<RcF, Tok>($($arg),*), ("arc", "tok") => $f::<ArcF, Tok>($($arg),*),
            ("rc", "wide") => $f::<RcF, Wide>($($arg),*), ("arc", "wide") => $f::<ArcF, Wide>($($arg),*),
            ("rc", "zst") => $f::<RcF, TokZ>($($arg),*), ("arc", "zst") => $f::<ArcF, TokZ>($($arg),*),
            ("rc", "alignz") => $f::<RcF, AlignZ>($($arg),*), ("arc", "alignz") => $f::<ArcF, AlignZ>($($arg),*),
            ("rc", "unit") => $f::<RcF, ()>($($arg),*), ("arc", "unit") => $f::<ArcF, ()>($($arg),*),
            ("rc", "u8") => $f::<RcF, u8>($($arg),*), ("arc", "u8") => $f::<ArcF, u8>($($arg),*),
            ("rc", "u64") => $f::<RcF, u64>($($arg),*), ("arc", "u64") => $f::<ArcF, u64>($($arg),*),
            ("rc", "b3") => $f::<RcF, [u8; 3]>($($arg),*), ("arc", "b3") => $f::<ArcF, [u8; 3]>($($arg),*),
            x => panic!("unknown family/item {:?}", x),
        }
    };
}

fn go<F: Fam, T: Item>(a: &Args, st: &mut Stats) {
    let t0 = crate::now();
    for i in 0..a.count {
        if a.secs > 0.0 && crate::now() - t0 > a.secs { break; }
        let seed = mix(a.seed.wrapping_add(i).wrapping_mul(0x2545_f491_4f6c_dd1d));
        report::progress(seed);
        let case = gen(seed, &a.prof, a.max_ops, a.max_len);
        let before: u64 = st.drops;
        let (r, _) = run_case::<F, T>(&case, st, false);
        if let Err(f) = r {
            report::fail(&f, "seq", &a.fam, &a.item, seed, &case.text());
            report::stats(st, "seq");
            std::process::exit(3);
        }
        if st.drops > before || !T::TRACK { st.nontrivial += 1; }
    }
}

pub fn run(a: &Args) {
    let mut st = Stats::default();
    dispatch!(a.fam.as_str(), a.item.as_str(), go, (a, &mut st));
    report::stats(&st, "seq");
}

fn replay1<F: Fam, T: Item>(fam: &str, item: &str, case: &Case) -> i32 {
    let mut st = Stats::default();
    let (r, t) = run_case::<F, T>(case, &mut st, true);
    if std::env::var("RCSV_TRACE").is_ok() { println!("{}", t.unwrap_or_default()); }
    match r {
        Ok(()) => 0,
        Err(f) => { report::fail(&f, "seq", fam, item, 0, ""); 3 }
    }
}

pub fn replay(fam: &str, item: &str, text: &str) -> i32 {
    let case = Case::parse(text);
    dispatch!(fam, item, replay1, (fam, item, &case))
}

pub fn show(prof: &str, seed: u64, max_ops: usize, max_len: usize) { print!("{}", gen(seed, prof, max_ops, max_len).text()); }

#[allow(dead_code)]
pub fn tag_list(f: &Fail) -> String { names(f.tags).join(",") }
