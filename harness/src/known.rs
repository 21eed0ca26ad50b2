//! Known findings: defects which are recorded rather than repaired.

use crate::model::{strip, unify_subst};
use crate::props::parse;

struct Known {
    property: String,
    input: String,
    same_as: String,
    what: String,
}

/// Lines look like `known: property=C11 input="..." same-as="..." what=...`, where strings
/// are escaped like those of Rust.
fn entries(text: &str) -> Vec<Known> {
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let rest = l.strip_prefix("property=")?;
            let (property, rest) = rest.split_once(" input=")?;
            let (input, rest) = string(rest)?;
            let (same_as, rest) = string(rest.strip_prefix(" same-as=")?)?;
            let what = rest.strip_prefix(" what=")?;
            Some(Known {
                property: property.to_owned(),
                input,
                same_as,
                what: what.to_owned(),
            })
        })
        .collect()
}

fn string(s: &str) -> Option<(String, &str)> {
    let s = s.strip_prefix('"')?;
    let mut out = String::new();
    let mut it = s.char_indices();
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some((out, &s[i + 1..])),
            '\\' => match it.next()?.1 {
                'n' => out.push('\n'),
                't' => out.push('\t'),
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    None
}

/// Report the known findings of a property which are still there.
pub fn report(root: &str, property: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)).unwrap_or_default();
    let mut found = Vec::new();
    for k in entries(&text) {
        if k.property != property {
            continue;
        }
        let shape = |s: &str| {
            crate::tape::guarded(|| {
                let p = parse(s);
                (unify_subst(strip(p.group())), p.err.is_some())
            })
        };
        if shape(&k.input) != shape(&k.same_as) {
            let line = format!(
                "KNOWN-FINDING: property={} {:?} should mean {:?}: {}",
                property, k.input, k.same_as, k.what
            );
            println!("{}", line);
            found.push(line);
        }
    }
    found
}
