pub mod cli;
pub mod compile;
pub mod defect;
pub mod earley;

pub mod gram;
pub mod json;
pub mod lalr;
pub mod lexmodel;
pub mod pipe;
pub mod props;
pub mod run;
pub mod rust;
pub mod rx;
pub mod sim;
pub mod spec;
pub mod tape;
pub mod worker;
pub mod td;
pub mod text;
