mod app;
mod checks;
mod explore;
mod http;
mod mem;
mod model;
#[cfg(feature = "mt")]
mod mt;
mod sched;
mod sim;
mod status;
mod supervise;
mod tls;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(supervise::main(&a[1..]));
}
