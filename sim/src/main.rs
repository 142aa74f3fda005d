mod alloc;
mod driver;
mod exec;
mod gen;
mod leak;
mod mqtt;
mod oracle;
mod plan;
mod program;
mod pw;
mod seam;
mod setup;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    driver::main();
}
