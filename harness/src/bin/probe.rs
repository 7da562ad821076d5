//! Which of the library's types may cross or be shared between threads, observed
//! for several item types, against the contract: an ArcSlice or WeakSlice shares
//! its items, so it may be sent or shared only if items may be sent and shared;
//! ArcSliceMut and its iterators own theirs, so they follow the items. Nothing of
//! the Rc family may ever cross.

use std::marker::PhantomData;

struct Probe<T: ?Sized>(PhantomData<T>);
trait Fallback { const SEND: bool = false; const SYNC: bool = false; }
impl<T: ?Sized> Fallback for Probe<T> {}
struct ProbeSend<T: ?Sized>(PhantomData<T>);
struct ProbeSync<T: ?Sized>(PhantomData<T>);
trait NoSend { const SEND: bool = false; }
trait NoSync { const SYNC: bool = false; }
impl<T: ?Sized> NoSend for ProbeSend<T> {}
impl<T: ?Sized> NoSync for ProbeSync<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send> ProbeSend<T> { const SEND: bool = true; }
#[allow(dead_code)]
impl<T: ?Sized + Sync> ProbeSync<T> { const SYNC: bool = true; }

macro_rules! send { ($t:ty) => { <ProbeSend<$t>>::SEND } }
macro_rules! sync { ($t:ty) => { <ProbeSync<$t>>::SYNC } }

pub struct Both(#[allow(dead_code)] u8);
pub struct SendOnly(#[allow(dead_code)] std::cell::Cell<u8>);
pub struct Neither(#[allow(dead_code)] std::rc::Rc<u8>);
// Shareable, but must be dropped where it was made
pub struct SyncOnly(#[allow(dead_code)] PhantomData<*const u8>);
unsafe impl Sync for SyncOnly {}

fn esc(s: &str) -> String { format!("{:?}", s) }

struct Row { name: String, item: &'static str, send: bool, sync: bool, want_send: Want, want_sync: Want }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Want { Yes, No, Any }

fn main() {
    let mut rows: Vec<Row> = vec![];
    macro_rules! item {
        ($item:ty, $str:expr) => {{
            let (s, y) = (send!($item), sync!($item));
            let b = |x: bool| if x { Want::Yes } else { Want::No };
            macro_rules! row { ($t:ty, $ws:expr, $wy:expr) => { rows.push(Row { name: stringify!($t).to_string(), item: $str, send: send!($t), sync: sync!($t), want_send: $ws, want_sync: $wy }); } }
            type T = $item;
            use rc_slice::*;
            // Shares the items and may be the one to drop them
            row!(ArcSlice<T>, b(s && y), b(s && y));
            row!(arc::WeakSlice<T>, b(s && y), b(s && y));
            row!(arc::ArcSliceParts<T>, b(s && y), b(s && y));
            // Owns the items exclusively, but returns ArcSlices by conversion only
            let own_s = if s && y { Want::Yes } else if s { Want::Any } else { Want::No };
            let own_y = if s && y { Want::Yes } else if y { Want::Any } else { Want::No };
            row!(ArcSliceMut<T>, own_s, own_y);
            row!(arc::ArcSliceMutIter<T>, own_s, own_y);
            row!(arc::ArcSliceMutParts<T>, own_s, own_y);
            row!(RcSlice<T>, Want::No, Want::No);
            row!(rc::WeakSlice<T>, Want::No, Want::No);
            row!(rc::RcSliceParts<T>, Want::No, Want::No);
            // Share their buffer's reference count with their siblings
            row!(RcSliceMut<T>, Want::No, Want::No);
            row!(rc::RcSliceMutIter<T>, Want::No, Want::No);
            row!(rc::RcSliceMutParts<T>, Want::No, Want::No);
        }};
    }
    item!(Both, "Send + Sync");
    item!(SendOnly, "Send, not Sync");
    item!(SyncOnly, "Sync, not Send");
    item!(Neither, "neither Send nor Sync");
    let _ = <Probe<u8> as Fallback>::SEND && <Probe<u8> as Fallback>::SYNC;
    let mut sets = std::collections::HashSet::new();
    let mut bad = vec![];
    for r in &rows {
        sets.insert(format!("{}{}", r.name, r.item));
        for (what, got, want) in [("sent to", r.send, r.want_send), ("shared with", r.sync, r.want_sync)] {
            let ok = match want { Want::Any => true, Want::Yes => got, Want::No => !got };
            if !ok { bad.push(format!("{} with items that are {} {} be {} another thread, and {}", r.name, r.item, if got { "may" } else { "may not" }, what, if got { "must not be" } else { "should be" })); }
        }
        println!("{}", format!("@ROW {{\"type\":{},\"items\":{},\"send\":{},\"sync\":{}}}", esc(&r.name), esc(r.item), r.send, r.sync));
    }
    for m in &bad {
        let tags = if m.contains("must not") { "\"C15\",\"C14\"" } else { "\"C15\"" };
        println!("@FAIL {{\"kind\":\"AUTO\",\"tags\":[{}],\"msg\":{},\"engine\":\"probe\",\"fam\":\"\",\"item\":\"\",\"seed\":\"0\",\"case\":\"\"}}", tags, esc(m));
    }
    println!("{}", format!("@STATS {{\"engine\":\"probe\",\"histories\":{},\"nontrivial\":{},\"sigs\":{},\"counts\":{{}}}}", rows.len() * 2, rows.len() * 2, sets.len()));
    if !bad.is_empty() { std::process::exit(3); }
}
