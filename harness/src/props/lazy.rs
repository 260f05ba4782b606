use super::*;
use std::cell::Cell;
use validate_btc_header::util::lazy::LazyCell;

pub fn fill(c: &mut Ctx) {
    for k in 0..if c.thorough { 3000 } else { 400 } {
        let seed = c.rnd();
        c.pred(format!("lazy history {k} seed={seed}"), move || {
            let mut s = seed;
            let mut rnd = move |m: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % m };
            let calls = Cell::new(0u32);
            let v = rnd(1000);
            let forced = rnd(5) == 0;
            let f = || { calls.set(calls.get() + 1); v };
            let mut cells = vec![if forced { LazyCell::from(v) } else { LazyCell::new(f) }];
            let mut touched = false;
            for step in 0..rnd(10) {
                let i = rnd(cells.len() as u64) as usize;
                match rnd(4) {
                    0 => { let n = cells[i].clone(); cells.push(n); }
                    1 => {
                        touched = true;
                        let r1 = *cells[i].borrow();
                        if r1 != v { return Err(format!("step {step}: {r1} instead of {v}")); }
                    }
                    2 => {
                        touched = true;
                        // two reads held at once, from two clones
                        let j = rnd(cells.len() as u64) as usize;
                        let (a, b) = (cells[i].borrow(), cells[j].borrow());
                        if *a != v || *b != v || !std::ptr::eq(&*a, &*b) { return Err(format!("step {step}: {} and {} instead of {v}", *a, *b)); }
                    }
                    _ => {
                        touched = true;
                        // force first: a borrow taken while another is live must see the same value
                        let _ = *cells[i].borrow();
                        let r = *cells[i].borrow();
                        if r != v { return Err(format!("step {step}: {r} instead of {v}")); }
                    }
                }
                let want = if forced || !touched { 0 } else { 1 };
                if calls.get() != want { return Err(format!("step {step}: the function ran {} times, expected {want}", calls.get())); }
            }
            Ok(())
        });
    }
}
