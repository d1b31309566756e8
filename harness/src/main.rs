//! Executable contracts: the bounded companion of the Verus proofs (see /verif/DESIGN.md).
mod clock;
mod codec;
mod engine;
mod fw;
mod gen;
mod queues;
mod refenc;
mod sessions;
mod misc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let o = fw::Opts::parse(&a);
    let mut suites = vec![];
    let p = o.prop.clone();
    suites.extend(codec::suites(&p));
    suites.extend(queues::suites(&p));
    suites.extend(sessions::suites(&p));
    suites.extend(engine::suites(&p));
    suites.extend(misc::suites(&p));
    if suites.is_empty() { eprintln!("no suites for {p}"); std::process::exit(2); }
    // large stack: some decoders recurse
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || fw::run(suites, o)).unwrap();
    let rc = h.join().unwrap_or(2);
    std::process::exit(rc);
}
