//! The library in its no-std configuration: prints the results of the operations of mc/src/ops.rs on their
//! input spaces, for comparison with the standard configuration.
//! usage: mc-nostd FROM TO CAP   (operations FROM..TO of the table, both precisions)
#[path = "../../mc/src/ops.rs"]
mod ops;
use ops::*;
use std::io::Write;

fn dump<T: R>(k: usize, cap: u64, w: &mut impl Write) {
    let op = &table::<T>()[k];
    let cs = Cases::new(op.arity, &COMPARE, cap);
    for i in 0..cs.size() {
        let x: Vec<T> = cs.at(i).into_iter().map(T::of).collect();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.run)(&x))) {
            Err(_) => w.write_all(&u32::MAX.to_le_bytes()).unwrap(),
            Ok((o, _, _)) => {
                w.write_all(&(o.len() as u32).to_le_bytes()).unwrap();
                for v in o { w.write_all(&v.to().to_le_bytes()).unwrap() }
            }
        }
    }
}
fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut w = std::io::BufWriter::with_capacity(1 << 20, std::io::stdout().lock());
    for k in a[0]..a[1] {
        dump::<f64>(k as usize, a[2], &mut w);
        dump::<f32>(k as usize, a[2], &mut w);
    }
    w.flush().unwrap();
}
