pub mod cont;
pub mod elems;
pub mod live;
pub mod prog;
pub mod pv;
pub mod runner;
pub mod optic;
pub mod sym;
pub mod iters;
pub mod user;
