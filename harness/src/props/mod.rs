use crate::fw::*;
pub mod sweep;
pub mod dsa;
pub mod ec;
pub mod hash;
pub mod info;
pub mod kinds;
pub mod alias;
pub mod clones;
pub mod hostile;
pub mod modes;
pub mod rnd;
pub mod rsa;
pub mod sym;
pub mod zuc;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(sym::props());
    v.extend(modes::props());
    v.extend(hash::props());
    v.extend(zuc::props());
    v.extend(rsa::props());
    v.extend(dsa::props());
    v.extend(ec::props());
    v.extend(rnd::props());
    v.extend(alias::props());
    v.extend(hostile::props());
    v.extend(info::props());
    v.extend(kinds::props());
    v.extend(clones::props());
    v
}
