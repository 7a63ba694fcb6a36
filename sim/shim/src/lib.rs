//! The only crate compiled with instrumentation: the library's generic code is
//! monomorphised here for the number types the simulator uses.
use rustdht::{scalar::*, Dht};
use simrt::SimNum;
use std::sync::Arc;

pub type Plan<T> = Arc<dyn Dht<T>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Alg {
    Naive(usize),
    Butterfly(usize),
    Radix4(usize),
    Mixed,
    Nx(usize),
    Split,
    Raders,
}

macro_rules! builder {
    ($name:ident, $t:ty) => {
        /// Construct one plan over `inner`; panics exactly when the library does.
        #[inline(never)]
        pub fn $name(alg: Alg, inner: Vec<Plan<$t>>) -> Plan<$t> {
            let mut inner = inner.into_iter();
            let mut i = || inner.next().unwrap();
            match alg {
                Alg::Naive(n) => Arc::new(DhtNaive::new(n)),
                Alg::Butterfly(1) => Arc::new(Butterfly1::new()),
                Alg::Butterfly(2) => Arc::new(Butterfly2::new()),
                Alg::Butterfly(3) => Arc::new(Butterfly3::new()),
                Alg::Butterfly(4) => Arc::new(Butterfly4::new()),
                Alg::Butterfly(5) => Arc::new(Butterfly5::new()),
                Alg::Butterfly(6) => Arc::new(Butterfly6::new()),
                Alg::Butterfly(8) => Arc::new(Butterfly8::new()),
                Alg::Butterfly(9) => Arc::new(Butterfly9::new()),
                Alg::Butterfly(16) => Arc::new(Butterfly16::new()),
                Alg::Butterfly(n) => unreachable!("no butterfly {}", n),
                Alg::Radix4(n) => Arc::new(Radix4::new(n)),
                Alg::Mixed => Arc::new(MixedRadix::new(i(), i())),
                Alg::Nx(2) => Arc::new(MixedRadix2xn::new(i())),
                Alg::Nx(3) => Arc::new(MixedRadix3xn::new(i())),
                Alg::Nx(4) => Arc::new(MixedRadix4xn::new(i())),
                Alg::Nx(5) => Arc::new(MixedRadix5xn::new(i())),
                Alg::Nx(6) => Arc::new(MixedRadix6xn::new(i())),
                Alg::Nx(n) => unreachable!("no {}xn", n),
                Alg::Split => Arc::new(SplitRadix::new(i(), i())),
                Alg::Raders => Arc::new(RadersAlgorithm::new(i())),
            }
        }
    };
}
builder!(build_f32, f32);
builder!(build_f64, f64);
builder!(build_sim, SimNum);
