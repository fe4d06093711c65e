mod core;
mod driver;
mod dynamic;
mod env;
mod item;
mod refcodec;
mod scen;
mod schema;
mod serdes;
mod subjects;
mod tape;
mod world;

use simrt::alloc;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    std::process::exit(driver::main())
}
