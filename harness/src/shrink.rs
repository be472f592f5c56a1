//! Shrinks a choice sequence while a predicate keeps failing.

/// `fails` returns the sequence actually consumed when the case still fails.
pub fn shrink(start: Vec<u64>, max_evals: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> (Vec<u64>, usize) {
    let mut best = start;
    let mut evals = 0usize;
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            let mut ok = false;
            if evals < max_evals && cand != best {
                evals += 1;
                if let Some(rec) = fails(&cand) {
                    let rec = if better(&rec, &cand) { rec } else { cand };
                    if better(&rec, &best) {
                        best = rec;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    loop {
        let before = best.clone();
        // cut the tail
        let mut cut = best.len() / 2;
        while cut > 0 {
            let n = best.len().saturating_sub(cut);
            if !attempt!(best[..n].to_vec()) {
                cut /= 2;
            } else {
                cut = cut.min(best.len() / 2);
            }
        }
        // delete chunks
        let mut size = (best.len() / 2).clamp(1, 256);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    attempt!(c);
                }
                if i == 0 || evals >= max_evals {
                    break;
                }
                i = i.saturating_sub(size.max(1));
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && evals < max_evals {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..end].fill(0);
                    attempt!(c);
                }
                i += size;
            }
        }
        // lower single numbers
        let mut i = 0;
        while i < best.len() && evals < max_evals {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && evals < max_evals {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt!(c) && i < best.len() {
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
                if i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
        if best == before || evals >= max_evals {
            break;
        }
    }
    (best, evals)
}
