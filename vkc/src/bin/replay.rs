//! `replay HARNESS FILE`: runs a harness natively on the values of a solver
//! model (FILE: one value per line, bytes as comma-separated decimals). A
//! failed assertion of the harness, or a panic in the crate, ends it with 101;
//! 3 if the model reproduces nothing, 0 if the harness holds.
#[cfg(not(kani))]
fn main() {
    let mut args = std::env::args().skip(1);
    let (name, file) = (args.next().unwrap(), args.next().unwrap());
    let text = std::fs::read_to_string(file).unwrap();
    vkc::nd::VALS.with(|q| {
        let mut q = q.borrow_mut();
        for l in text.lines() {
            q.push_back(l.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect());
        }
    });
    for (n, f) in vkc::ALL.iter().copied().flatten() {
        if *n == name {
            f();
            println!("replay: the harness holds for this model");
            return;
        }
    }
    eprintln!("no harness {name}");
    std::process::exit(2)
}
#[cfg(kani)]
fn main() {}
