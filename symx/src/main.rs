mod ast;
mod eng;
mod run;
mod scen_anneal;
mod scen_compile;
mod scen_ops;
#[cfg(feature = "sched")]
mod scen_sched;
mod scen_solve;
mod stub;

fn main() {
	run::main();
}
