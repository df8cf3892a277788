//! Mechanical extraction of functions from the macro-expanded crate into Verus units.
//!
//!   vx_extract EXPANDED.rs UNIT.vu OUT.rs META.json [-D NAME=VALUE]...
//!
//! A unit is Verus text with `//@` directives (see DESIGN.md, "The extractor").  Everything that
//! is not a directive is copied; `//@fn` / `//@item` directives are replaced by the code of the
//! named item, as found in the expanded crate, with its contract put in.
//! Exit codes: 0 done; 3 an anchor was lost or a construct is outside the supported subset.
mod index;
mod print;
mod template;
mod transform;

use std::{env, fs, process::exit};

pub fn fail(kind: &str, msg: &str) -> !
{
    eprintln!("{kind}: {msg}");
    exit(3)
}

fn main()
{
    let args: Vec<String> = env::args().collect();
    if args.len() >= 3 && args[2] == "--list" {
        let idx = load(&args[1]);
        for f in &idx.fns {
            println!("{}\t{}", f.key, f.modpath);
        }
        for i in &idx.items {
            println!("item {}\t{}", i.key, i.modpath);
        }
        return;
    }
    if args.len() >= 4 && args[2] == "--wiring" {
        // print assoc types of `impl Trait for Type` below a module path:  --wiring MOD TRAIT SELF
        let idx = load(&args[1]);
        for a in &idx.assocs {
            if a.modpath.contains(&args[3]) {
                println!("{}\t{}\t{}\t{}\t{}", a.modpath, a.trait_, a.self_, a.name, a.value);
            }
        }
        return;
    }
    let idx = load(&args[1]);
    let mut defs = std::collections::HashMap::new();
    let mut i = 5;
    while i < args.len() {
        if args[i] == "-D" {
            let (k, v) = args[i + 1].split_once('=').unwrap_or((args[i + 1].as_str(), "1"));
            defs.insert(k.to_string(), v.to_string());
            i += 2;
        }
        else {
            i += 1;
        }
    }
    let (out, meta) = template::run(&idx, &args[2], &defs);
    fs::write(&args[3], out).expect("write out");
    fs::write(&args[4], meta).expect("write meta");
}

fn load(p: &str) -> index::Index
{
    let src = fs::read_to_string(p).unwrap_or_else(|e| fail("LOST-ANCHOR", &format!("{p}: {e}")));
    let file = syn::parse_file(&src).unwrap_or_else(|e| fail("UNSUPPORTED", &format!("parse of expanded crate: {e}")));
    index::Index::build(file)
}
