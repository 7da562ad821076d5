pub type Tags = u32;
pub const fn c(n: u32) -> Tags { 1 << n }

pub fn names(t: Tags) -> Vec<String> {
    (1..32).filter(|i| t & (1 << i) != 0).map(|i| format!("C{:02}", i)).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum G { New, S, P, Grant, Weak, M, I, MP, Invalid, Own, Reent }

pub fn group(g: G, arc: bool) -> Tags {
    match g {
        G::New => c(4) | c(9),
        G::S => c(4),
        G::P => c(5),
        G::Grant => if arc { c(7) } else { c(6) },
        G::Weak => c(8),
        G::M => c(9),
        G::I => c(10),
        G::MP => c(5) | c(9),
        G::Invalid => c(12),
        G::Own => 0,
        G::Reent => c(12) | c(16),
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: &'static str,
    pub tags: Tags,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Fail>;

pub fn fail<T>(kind: &'static str, tags: Tags, msg: String) -> Res<T> { Err(Fail { kind, tags, msg }) }
