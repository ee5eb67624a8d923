//! Native replay server: reads lines "entry hexbits hexbits ..." and answers "OK hexbits ..." or "PANIC".
use std::io::{BufRead, Write};
mod khist;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let so = std::io::stdout();
    let mut so = std::io::BufWriter::new(so.lock());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let name = match it.next() { Some(n) => n, None => continue };
        let args: Vec<u64> = it.map(|s| u64::from_str_radix(s, 16).unwrap()).collect();
        match harness::nat::lookup(name) {
            None => match std::panic::catch_unwind(|| khist::call(name, &args)) {
                Ok(Some(c)) => { writeln!(so, "OK {:016x}", (c as f64).to_bits()).unwrap(); }
                Ok(None) => { writeln!(so, "UNKNOWN").unwrap(); }
                Err(_) => { writeln!(so, "PANIC").unwrap(); }
            },
            Some(f) => match std::panic::catch_unwind(|| f(&args)) {
                Ok(v) => {
                    write!(so, "OK").unwrap();
                    for x in v { write!(so, " {:016x}", x.to_bits()).unwrap(); }
                    writeln!(so).unwrap();
                }
                Err(_) => { writeln!(so, "PANIC").unwrap(); }
            },
        }
        so.flush().unwrap();
    }
}
