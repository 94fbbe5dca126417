//! What a load with options has to show, given what the full load shows.

use crate::model::*;

fn keep_cells_key(k: &str) -> bool {
    k == "sheets" || k.contains(".cell.") || k.ends_with(".name")
}

/// Expands repeat counts of cells and rows in an observation.
fn expand(m: &Model) -> Model {
    let mut o = m.clone();
    for s in &mut o.sheets {
        let mut add = Vec::new();
        for ((r, c), kv) in s.cells.iter_mut() {
            if let Some(n) = kv.remove("repeat") {
                let n: u32 = n.parse().unwrap_or(1);
                for i in 1..n {
                    add.push(((*r, c + i), kv.clone()));
                }
            }
        }
        s.cells.extend(add);
        let reps: Vec<(u32, u32)> = s
            .rows
            .iter()
            .filter_map(|(r, k)| k.get("repeat").map(|n| (*r, n.parse().unwrap_or(1))))
            .collect();
        let mut add = Vec::new();
        for (r, n) in reps {
            for ((_, c), k) in s.cells.range((r, 0)..(r + 1, 0)) {
                for i in 1..n {
                    add.push(((r + i, *c), k.clone()));
                }
            }
        }
        s.cells.extend(add);
    }
    o
}

pub fn compare(full: &Model, got: &Model, opts: (bool, bool, bool), _fods: bool) -> Vec<String> {
    let (content_only, repeat, ignore_empty) = opts;
    let mut want = full.clone();
    let mut got = got.clone();
    if repeat {
        got = expand(&got);
    }
    let mut early = Vec::new();
    if ignore_empty {
        // Cells without value and formula may stay for the sake of their span,
        // validation, annotation or frames (the documentation and the code differ
        // here); they have to be those of the full read, and a cell that is
        // nothing but its style has to go.
        for (i, (w, g)) in want.sheets.iter_mut().zip(got.sheets.iter_mut()).enumerate() {
            let data = |k: &Kv| k.contains_key("val") || k.contains_key("formula");
            for (p, k) in g.cells.iter().filter(|(_, k)| !data(k)) {
                if k.keys().all(|k| k == "style") {
                    early.push(format!("s{i}.cell.{p:?}: is empty and wasn't ignored"));
                } else if w.cells.get(p) != Some(k) {
                    early.push(format!("s{i}.cell.{p:?}: {k:?} instead of {:?}", w.cells.get(p)));
                }
            }
            w.cells.retain(|_, k| data(k));
            g.cells.retain(|_, k| data(k));
        }
    }
    let f = |k: &str| {
        if content_only || repeat || ignore_empty {
            keep_cells_key(k) || !content_only && !k.contains(".row.") && !k.contains("rgrp")
        } else {
            true
        }
    };
    early.extend(diff(&want.flat(), &got.flat(), &f));
    early
}
