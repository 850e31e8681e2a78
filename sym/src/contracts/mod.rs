use crate::run::Contract;
pub mod basics;
pub mod geom;
pub mod intr;
pub mod pipe;
pub mod poly;
pub mod inter;
pub mod offset;
pub mod boolean;
pub mod ends;
pub mod spec;

/// contract!(name, covers, bound, generic_fn)
#[macro_export]
macro_rules! contract {
    ($v:ident, $name:expr, $covers:expr, $bound:expr, $f:ident) => {
        $crate::contract!($v, $name, $covers, $bound, $f, 1)
    };
    ($v:ident, $name:expr, $covers:expr, $bound:expr, $f:ident, $shards:expr) => {
        $v.push($crate::run::Contract {
            name: $name,
            covers: $covers,
            bound: $bound,
            shards: $shards,
            conc_only: false,
            sym: $f::<$crate::sym::Sym>,
            conc: $f::<f64>,
        })
    };
}
/// a contract that is only evaluated on concrete inputs
#[macro_export]
macro_rules! bounded {
    ($v:ident, $name:expr, $covers:expr, $bound:expr, $f:ident) => {
        $v.push($crate::run::Contract {
            name: $name,
            covers: $covers,
            bound: $bound,
            shards: 0,
            conc_only: true,
            sym: || {},
            conc: $f,
        })
    };
}

pub fn all() -> Vec<Contract> {
    let mut v = vec![];
    basics::register(&mut v);
    geom::register(&mut v);
    intr::register(&mut v);
    pipe::register(&mut v);
    poly::register(&mut v);
    inter::register(&mut v);
    offset::register(&mut v);
    boolean::register(&mut v);
    ends::register(&mut v);
    v
}
