//! Monitors of the public library API. One sub-command per property.
mod api;
mod gen;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p16;

use h_common::*;

fn main() {
    main_with(|args| match args.prop.clone().as_str() {
        "P01" => p01::run(args),
        "P02" => p02::run(args),
        "P03" => p03::run(args),
        "P04" => p04::run(args),
        "P05" => p05::run(args),
        "P06" => p06::run(args),
        "P07" => p07::run(args),
        "P08" => p08::run(args),
        "P09" => p09::run(args),
        "P16" => p16::run(args),
        p => panic!("unknown property {p}"),
    });
}
