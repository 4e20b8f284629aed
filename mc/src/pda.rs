//! Configurations of the reference pushdown automaton modulo the top-k stack states:
//! breadth-first search gives each one a shortest access string.

use crate::glr::*;
use crate::kinds::*;
use std::collections::HashMap;

pub struct Config {
    pub prefix: Vec<Tok>,
    pub tops: Vec<u32>,
    /// (token, target configuration)
    pub next: Vec<(Kind, u32)>,
    /// completed or opened rules at the top
    pub rules: Vec<u16>,
}

/// Tokens used to reach configurations: one of each class the grammar distinguishes.
pub fn steps(k: &Kinds) -> Vec<Kind> {
    (0..k.eof)
        .filter(|&x| !["b", "c", "d", "e", "meta", "undefined", "constructor"].contains(&k.text[x as usize]))
        .collect()
}

pub fn configs(g: &mut Glr, k: &Kinds, depth: usize, max_len: usize, cap: usize) -> Vec<Config> {
    let alphabet = steps(k);
    let mut index: HashMap<Vec<u32>, u32> = HashMap::new();
    let mut out: Vec<Config> = vec![];
    let mut fronts: Vec<Front> = vec![];
    let f = g.start();
    index.insert(g.top(&f, depth), 0);
    out.push(Config { prefix: vec![], tops: g.top_states(&f), next: vec![], rules: vec![] });
    fronts.push(f);
    let mut i = 0;
    while i < out.len() {
        if out[i].prefix.len() < max_len {
            let f = fronts[i].clone();
            for &t in &alphabet {
                let m = g.mark();
                let tok = Tok { k: t, nl: false };
                if let Some(n) = g.step(&f, tok) {
                    let key = g.top(&n, depth);
                    let id = match index.get(&key) {
                        Some(&x) => {
                            g.undo(&m);
                            x
                        }
                        None => {
                            if out.len() >= cap {
                                g.undo(&m);
                                continue;
                            }
                            let x = out.len() as u32;
                            index.insert(key, x);
                            let mut p = out[i].prefix.clone();
                            p.push(tok);
                            let tops = g.top_states(&n);
                            let mut rules = vec![];
                            for &s in &tops {
                                g.auto.kernel_rules(s, &mut rules);
                            }
                            out.push(Config { prefix: p, tops, next: vec![], rules });
                            fronts.push(n);
                            x
                        }
                    };
                    out[i].next.push((t, id));
                } else {
                    g.undo(&m);
                }
            }
        }
        i += 1;
    }
    out
}
