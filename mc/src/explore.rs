//! Deviation-bounded exhaustive exploration of a choice tree.
//!
//! `choose(n)` is answered 0 by default. All executions with at most d answers
//! different from 0 are enumerated, for d = 0, 1, 2, ... (iterative context
//! bounding, with "departure from the default value" as the deviation).

#[derive(Default)]
pub struct Chooser {
    prefix: Vec<u16>,
    pub trace: Vec<(u16, u16)>,
    /// which default `vary` takes (see there)
    pub base: u8,
}

impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "replayed choice out of range: exploration is not deterministic");
        self.trace.push((c, n as u16));
        c as usize
    }
    /// A choice whose default need not be alternative 0: under base 1 the
    /// default rotates through the alternatives from choice point to choice
    /// point, under base 2 it runs through them in a scrambled order. Elements
    /// of one array then differ from each other without any deviation.
    pub fn vary(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.trace.len();
        let off = match self.base {
            0 => 0,
            1 => i % n,
            _ => (crate::util::mix(i as u64 + 77) >> 20) as usize % n,
        };
        let c = self.choose(n);
        (c + off) % n
    }
    pub fn replay(prefix: Vec<u16>) -> Chooser {
        Chooser { prefix, trace: vec![], base: 0 }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Explored {
    pub executions: u64,
    /// deviation levels enumerated completely
    pub levels_done: u32,
    /// the whole choice tree was enumerated
    pub complete: bool,
    pub max_points: usize,
    pub transitions: u64,
}

/// Enumerates level by level; a level is entered only while fewer than `cap`
/// executions were made, and is abandoned at `hard` executions.
/// `f` returns false to stop.
pub fn explore(max_dev: u32, cap: u64, hard: u64, f: impl FnMut(&mut Chooser) -> bool) -> Explored {
    explore_from(0, max_dev, cap, hard, f)
}
/// The same around another base schedule.
pub fn explore_from(base: u8, max_dev: u32, cap: u64, hard: u64, mut f: impl FnMut(&mut Chooser) -> bool) -> Explored {
    let mut st = Explored::default();
    // prefixes whose last element is the d-th deviation
    let mut level: Vec<Vec<u16>> = vec![vec![]];
    for d in 0..=max_dev {
        let mut next: Vec<Vec<u16>> = vec![];
        let mut cut = false;
        for p in &level {
            if st.executions >= hard {
                cut = true;
                break;
            }
            let mut ch = Chooser { prefix: p.clone(), trace: vec![], base };
            let go = f(&mut ch);
            st.executions += 1;
            st.transitions += ch.trace.len() as u64;
            st.max_points = st.max_points.max(ch.trace.len());
            if !go {
                return st;
            }
            assert!(ch.trace.len() >= p.len(), "prefix not consumed");
            if d < max_dev && next.len() < 4_000_000 {
                for i in p.len()..ch.trace.len() {
                    for alt in 1..ch.trace[i].1 {
                        let mut q: Vec<u16> = ch.trace[..i].iter().map(|x| x.0).collect();
                        q.push(alt);
                        next.push(q);
                    }
                }
            }
        }
        if cut {
            return st;
        }
        st.levels_done = d + 1;
        if next.is_empty() && d < max_dev {
            st.complete = true;
            return st;
        }
        if st.executions >= cap {
            return st;
        }
        level = next;
    }
    st
}
