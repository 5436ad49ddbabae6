// vx: mechanical extraction of functions from /repo into a Verus file.
//
//   vx TEMPLATE OUT.rs REPORT.json [--root /repo] [--reach] [--alt PATH=K]
//
// Template lines are copied through; `//@` directives pull items out of the repository's *current*
// source text and splice contracts, loop invariants and ghost code into it.  What is rewritten in the
// executable text is listed, edit by edit, in REPORT.json (see DESIGN.md, "What the extraction does").
mod item;
mod foreign;
mod lift;
mod heap;
mod inline;
mod render;
mod sym;
mod template;

use std::fs;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut root = "/repo".to_string();
    let mut reach = false;
    let mut pos = vec![];
    let mut choice = std::collections::HashMap::new();
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--root" => { root = a[i + 1].clone(); i += 1; }
            "--alt" => { let (p, k) = a[i + 1].rsplit_once('=').unwrap(); choice.insert(p.to_string(), k.parse().unwrap()); i += 1; }
            "--reach" => reach = true,
            s => pos.push(s.to_string()),
        }
        i += 1;
    }
    let res = template::run(&pos[0], &root, reach, &choice);
    fs::write(&pos[1], &res.text).unwrap();
    fs::write(&pos[2], serde_json::to_string_pretty(&res.report).unwrap()).unwrap();
}
