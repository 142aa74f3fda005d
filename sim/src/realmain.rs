//! The program's own main function on the simulated runtime. See program.rs.
#![allow(dead_code)]
mod alloc;
mod driver;
mod exec;
mod gen;
mod leak;
mod mqtt;
mod oracle;
mod plan;
mod program;
mod pw;
mod seam;
mod setup;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

mod broker_main {
    include!(concat!(env!("OUT_DIR"), "/broker_main.rs"));

    pub fn call() -> std::process::ExitCode {
        std::process::Termination::report(main())
    }
}

fn main() -> std::process::ExitCode {
    program::real_main(broker_main::call)
}
