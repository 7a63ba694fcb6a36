//! The simulated number type: an f64 whose arithmetic passes through the simulator
//! (failure points) and which carries a taint bit marking values derived from
//! memory the library had no business reading.
use crate::scalar_op;
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use std::ops::*;

#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct SimNum {
    pub v: f64,
    pub taint: u32,
    pub mark: u32,
}
pub const MARK: u32 = 0x51A1_0001;
impl SimNum {
    #[inline]
    pub fn new(v: f64) -> Self {
        SimNum { v, taint: 0, mark: MARK }
    }
    #[inline]
    pub fn garbage(v: f64) -> Self {
        SimNum { v, taint: 1, mark: MARK }
    }
    #[inline]
    fn t(&self) -> u32 {
        // memory that was never a number (poisoned or freed) counts as tainted
        if self.mark != MARK { self.taint | 1 } else { self.taint & 1 }
    }
    #[inline]
    pub fn tainted(&self) -> bool {
        self.t() != 0
    }
}
impl PartialEq for SimNum {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl PartialOrd for SimNum {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.v.partial_cmp(&o.v)
    }
}
macro_rules! op {
    ($tr:ident $f:ident $tra:ident $fa:ident $o:tt) => {
        impl $tr for SimNum {
            type Output = SimNum;
            #[inline(never)]
            fn $f(self, r: SimNum) -> SimNum {
                scalar_op();
                SimNum { v: self.v $o r.v, taint: self.t() | r.t(), mark: MARK }
            }
        }
        impl $tra for SimNum {
            #[inline(never)]
            fn $fa(&mut self, r: SimNum) { *self = *self $o r; }
        }
    };
}
op!(Add add AddAssign add_assign +);
op!(Sub sub SubAssign sub_assign -);
op!(Mul mul MulAssign mul_assign *);
op!(Div div DivAssign div_assign /);
op!(Rem rem RemAssign rem_assign %);
impl Neg for SimNum {
    type Output = SimNum;
    #[inline(never)]
    fn neg(self) -> SimNum {
        scalar_op();
        SimNum { v: -self.v, taint: self.t(), mark: MARK }
    }
}
impl Zero for SimNum {
    #[inline(never)]
    fn zero() -> Self {
        SimNum::new(0.0)
    }
    fn is_zero(&self) -> bool {
        self.v == 0.0
    }
}
impl One for SimNum {
    fn one() -> Self {
        SimNum::new(1.0)
    }
}
impl Num for SimNum {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, _r: u32) -> Result<Self, ()> {
        s.parse::<f64>().map(SimNum::new).map_err(|_| ())
    }
}
impl Signed for SimNum {
    fn abs(&self) -> Self {
        scalar_op();
        SimNum { v: self.v.abs(), taint: self.t(), mark: MARK }
    }
    fn abs_sub(&self, o: &Self) -> Self {
        scalar_op();
        SimNum { v: (self.v - o.v).max(0.0), taint: self.t() | o.t(), mark: MARK }
    }
    fn signum(&self) -> Self {
        scalar_op();
        SimNum { v: self.v.signum(), taint: self.t(), mark: MARK }
    }
    fn is_positive(&self) -> bool {
        self.v > 0.0
    }
    fn is_negative(&self) -> bool {
        self.v < 0.0
    }
}
impl FromPrimitive for SimNum {
    #[inline(never)]
    fn from_i64(n: i64) -> Option<Self> {
        scalar_op();
        Some(SimNum::new(n as f64))
    }
    #[inline(never)]
    fn from_u64(n: u64) -> Option<Self> {
        scalar_op();
        Some(SimNum::new(n as f64))
    }
    #[inline(never)]
    fn from_f32(n: f32) -> Option<Self> {
        scalar_op();
        Some(SimNum::new(n as f64))
    }
    #[inline(never)]
    fn from_f64(n: f64) -> Option<Self> {
        scalar_op();
        Some(SimNum::new(n))
    }
}
