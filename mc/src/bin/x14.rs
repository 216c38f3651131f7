//! Reads macro uses (`name<TAB>tokens` per line) and prints every identifier of their expansions: the names a caller
//! could have in scope as well. Used by gen/c14.py and gen/c16.py to enumerate possible captures.
use frozen_collections_core::macros::*;
use proc_macro2::{TokenStream, TokenTree};
use std::collections::BTreeSet;
use std::io::Read;
use std::panic::{AssertUnwindSafe, catch_unwind};

fn walk(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => drop(out.insert(i.to_string())),
            TokenTree::Group(g) => walk(g.stream(), out),
            _ => {}
        }
    }
}

fn main() {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("stdin");
    let (mut out, mut n) = (BTreeSet::new(), 0);
    for l in text.lines() {
        let Some((mac, toks)) = l.split_once('\t') else { continue };
        let Ok(ts) = toks.parse::<TokenStream>() else { continue };
        let r = catch_unwind(AssertUnwindSafe(|| match mac {
            "fz_hash_map" => fz_hash_map_macro(ts),
            "fz_ordered_map" => fz_ordered_map_macro(ts),
            "fz_scalar_map" => fz_scalar_map_macro(ts),
            "fz_string_map" => fz_string_map_macro(ts),
            "fz_hash_set" => fz_hash_set_macro(ts),
            "fz_ordered_set" => fz_ordered_set_macro(ts),
            "fz_scalar_set" => fz_scalar_set_macro(ts),
            "fz_string_set" => fz_string_set_macro(ts),
            _ => derive_scalar_macro(ts),
        }));
        if let Ok(Ok(ts)) = r {
            walk(ts, &mut out);
            n += 1;
        }
    }
    for i in out {
        println!("IDENT {i}");
    }
    println!("EXPANDED {n}");
}
