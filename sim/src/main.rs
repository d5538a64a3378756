#[macro_use]
extern crate amplify;

mod chain;
mod class;
mod container;
mod curve;
mod driver;
mod forge;
mod guardian;
mod invoices;
mod forgery;
mod hostile;
mod kits;
mod oracle;
mod rng;
mod schema;
mod special;
mod steps;
mod sys;
mod truth;
mod work;
mod world;

#[global_allocator]
static ALLOC: sys::CountingAlloc = sys::CountingAlloc;

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19",
];

fn main() { std::process::exit(driver::main()); }
