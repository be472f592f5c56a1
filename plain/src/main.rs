//! Answers requests on stdin with what gvas does with them, until stdin ends.

mod work;

use std::io::{Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut n = [0; 4];
    while i.read_exact(&mut n).is_ok() {
        let mut request = vec![0; u32::from_le_bytes(n) as usize];
        if i.read_exact(&mut request).is_err() {
            break;
        }
        let answer = match std::panic::catch_unwind(|| work::answer(&request)) {
            Ok(a) => a,
            Err(_) => vec![work::PANIC],
        };
        if o.write_all(&(answer.len() as u32).to_le_bytes()).and_then(|_| o.write_all(&answer)).and_then(|_| o.flush()).is_err() {
            break;
        }
    }
}
