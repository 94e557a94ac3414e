//! Monitors of the internal building blocks.
mod p17;
mod p18;
mod p19;
mod p20;

use h_common::*;

fn main() {
    main_with(|args| match args.prop.clone().as_str() {
        "P17" => p17::run(args),
        "P18" => p18::run(args),
        "P19" => p19::run(args),
        "P20" => p20::run(args),
        p => panic!("unknown property {p}"),
    });
}
