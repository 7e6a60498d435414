#![allow(clippy::all)]
mod agree;
mod alias;
mod build;
mod calls;
mod cfg;
mod derives;
mod cmdline;
mod compile;
mod contract;
mod det;
mod docs;
mod hygiene;
mod enums;
mod layout;
mod mutate;
mod naming;
mod prog;
mod robust;
mod unsound;

fn main() {
    pbt::main_with(vec![calls::entry_c12(), docs::entry(), hygiene::entry(), layout::entry(), enums::entry(), derives::entry(), naming::entry(), robust::entry(), unsound::entry(), det::entry(), cfg::entry(), build::entry(), agree::entry(), compile::entry(), contract::entry(), alias::entry(), cmdline::entry()])
}
