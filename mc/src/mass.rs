//! Object used for mass exploration: cloneable, extended by one registration at a time.
use crate::common::{may_panic, W};
use crate::sut::*;

#[cfg(feature = "inproc")]
pub struct Mass {
    r: obsidian::router::Router,
}

#[cfg(feature = "inproc")]
impl Mass {
    pub fn new() -> Mass {
        Mass { r: obsidian::router::Router::new() }
    }
    pub fn extend(&self, op: &Op) -> Result<Mass, String> {
        let mut r = self.r.clone();
        may_panic(|| apply_router(&mut r, op))?;
        Ok(Mass { r })
    }
    /// None: this request cannot be carried by the driver
    pub fn ask(&self, _w: &mut W, reqs: &[(u8, String)]) -> Vec<Option<Seen>> {
        reqs.iter().map(|(m, p)| Some(dispatch(&self.r, &m_of(*m), p))).collect()
    }
}

#[cfg(not(feature = "inproc"))]
pub struct Mass {
    ops: Vec<Op>,
}

#[cfg(not(feature = "inproc"))]
impl Mass {
    pub fn new() -> Mass {
        Mass { ops: vec![] }
    }
    pub fn extend(&self, op: &Op) -> Result<Mass, String> {
        let mut ops = self.ops.clone();
        ops.push(op.clone());
        may_panic(|| drop(build_app(&ops)))?;
        Ok(Mass { ops })
    }
    pub fn ask(&self, w: &mut W, reqs: &[(u8, String)]) -> Vec<Option<Seen>> {
        let ok: Vec<(u8, String)> = reqs.iter().filter(|r| wire_ok(&r.1)).cloned().collect();
        let mut got = wire_dispatch(w, &self.ops, &ok).into_iter();
        reqs.iter().map(|r| if wire_ok(&r.1) { got.next() } else { None }).collect()
    }
}

pub const DEEP: bool = cfg!(feature = "inproc");

pub fn build(ops: &[Op]) -> Result<Mass, (usize, String)> {
    let mut m = Mass::new();
    for (i, o) in ops.iter().enumerate() {
        m = m.extend(o).map_err(|e| (i, e))?;
    }
    Ok(m)
}
