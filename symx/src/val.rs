use std::rc::Rc;
pub type E = u32;
/// A runtime value: concrete (bit pattern), symbolic expression, or aggregate/vector.
#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W(Rc<u128>),
    E(E),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn big(x: u128) -> Val {
        Val::W(Rc::new(x))
    }
    pub fn i(&self) -> u64 {
        match self {
            Val::I(x) => *x,
            Val::W(x) => **x as u64,
            _ => panic!("concrete value expected, got {self:?}"),
        }
    }
    pub fn u128(&self) -> u128 {
        match self {
            Val::I(x) => *x as u128,
            Val::W(x) => **x,
            _ => panic!("concrete value expected, got {self:?}"),
        }
    }
    pub fn from_w(x: u128, w: u32) -> Val {
        if w <= 64 {
            Val::I(x as u64 & mask64(w))
        } else {
            Val::big(x & mask128(w))
        }
    }
    pub fn is_conc(&self) -> bool {
        matches!(self, Val::I(_) | Val::W(_))
    }
}
#[inline]
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn mask128(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext64(x: u64, w: u32) -> i64 {
    if w >= 64 {
        x as i64
    } else {
        ((x << (64 - w)) as i64) >> (64 - w)
    }
}
#[inline]
pub fn sext128(x: u128, w: u32) -> i128 {
    if w >= 128 {
        x as i128
    } else {
        ((x << (128 - w)) as i128) >> (128 - w)
    }
}
