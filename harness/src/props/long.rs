//! Constructs with a lot of the same in them, each edited a little at every place in turn, and
//! compared with the reference parser. There is nothing random here.

use super::*;

/// `pre open*n mid close*n post`, with the tags of the properties it belongs to
struct Long(&'static str, &'static str, &'static str, &'static str, &'static str, &'static str);

const LONG: &[Long] = &[
    Long("04", "a", " && b", "", "", "\n"),
    Long("04", "a", " || ! b", "", "", "\n"),
    Long("04", "a", "|b", "", "", "\n"),
    Long("04", "! a", "|\nb", "", "", " c"),
    Long("04", "a", ";b", "", "", "\n"),
    Long("04", "", "a\n", "", "", "b"),
    Long("04", "a", "& b", "", "", ""),
    Long("04", "(a", "; b", "", "", ")"),
    Long("05", "case a in ", "(b) c;; ", "", "", "esac\nd"),
    Long("05", "case a in\n", "b) c\n;;\n", "", "", "d) e; esac"),
    Long("05", "case a in ", "b|", "", "", "c) d;; esac"),
    Long("05", "case a in a) ", "b;", "", "", ";; esac"),
    Long("05", "if a; then b;", " elif a; then b;", "", "", " else c; fi"),
    Long("05", "if ", "a;", "", "", " then b; else c; fi"),
    Long("05", "for a in", " b", "", "", "; do c; done"),
    Long("05", "while ", "a\n", "", "", "do c; done"),
    Long("05", "until a; do", "\nb", "", "", "\ndone"),
    Long("05", "{ a;", " b;", "", "", " }"),
    Long("05", "", "{ ", "a;", " }", "\nb"),
    Long("05", "", "(", "a", ")", ""),
    Long("05", "", "if a; then ", "b", "; fi", "\nc"),
    Long("05", "", "while a; do ", "b", "; done", ""),
    Long("05", "", "for a in b; do ", "c", "; done", ""),
    Long("05", "", "case a in b) ", "c", ";; esac", ""),
    Long("05", "{ a; }", " >b", "", "", "; c"),
    Long("06", "", "a() ", "{ b; }", "", ""),
    Long("06", "", "a() { ", "b;", " }", ""),
    Long("06", "", "function a {\n", "b\n", "}\n", ""),
    Long("06", "a()", "\n", "(b)", "", ""),
    Long("06", "", "a() (b)\n", "", "", "c"),
    Long("06", "a() { b; }", " >c", "", "", " | d"),
    Long("07", "", "a=b ", "", "", "c"),
    Long("07", "a", " b", "", "", " c=d"),
    Long("07", "a=", "b", "", "", " c"),
    Long("07", "", "a= >b ", "", "", "c"),
    Long("08", "a", " >b", "", "", " c"),
    Long("08", "", "<a ", "", "", "b"),
    Long("08", "a", " 2>&1", "", "", ""),
    Long("08", "a ", "0", "", "", "3<&- b"),
    Long("08", "(a)", " 4<>b", "", "", ""),
    Long("09", "a ", "$b", "", "", " c"),
    Long("09", "a \"", "b$c", "", "", "\" d"),
    Long("09", "a ", "'b'", "", "", "c d"),
    Long("09", "a ", "\"b\"", "", "", " c"),
    Long("09", "a ", "\\b", "", "", " c"),
    Long("09", "a \"", "\\b", "", "", "\""),
    Long("09", "a ", "#~*?[]", "", "", " c"),
    Long("09", "a '", "b\"$c\n", "", "", "'d"),
    Long("10", "a ${b", "c1", "", "", "} d"),
    Long("10", "a ${", "1", "", "", "}2 d"),
    Long("10", "a ${b:-", "c $d ", "", "", "} e"),
    Long("10", "a ", "${b:-", "c", "}", " d"),
    Long("10", "a \"", "${b%", "c", "}", "\" d"),
    Long("10", "a ", "${b##\"", "c", "\"}", " d"),
    Long("10", "a ", "$b${#c}$1${10}", "", "", " d"),
    Long("11", "a $(", "b;", "", "", ") c"),
    Long("11", "a `", "b\n", "", "", "` c"),
    Long("11", "a ", "$(", "b", ")", " c"),
    Long("11", "a ", "\"$(b ", "c", ")\"", " d"),
    Long("11", "a ", "$(b)`c`", "", "", " d"),
    Long("12", "a", " <<A", "\n", "b\nA\n", "c"),
    Long("12", "a <<A\n", "b\n", "", "", "A\nc"),
    Long("12", "a <<A\n", "b$c", "", "", "\nA\nd"),
    Long("12", "a <<-\\A\n", "\t", "A", "", "\nd"),
    Long("12", "a <<'A\n", "b\n", "'\n", "b\n", "\nd"),
    Long("12", "", "a <<A\nb\nA\n", "", "", "c"),
    Long("12", "a <<\"", "b", "\"; c\n", "b", "\nd"),
    Long("13", "a $((b", "+c", "", "", ")) d"),
    Long("13", "a $((b", " * 2", "", "", ")) d"),
    Long("13", "a $((", "(", "b", ")", ")) c"),
    Long("13", "a $((", "- ", "b", "", ")) c"),
    Long("13", "a $((", "b ? ", "c", " : d", ")) e"),
    Long("13", "a $((", "b = ", "c", "", ")) d"),
    Long("13", "a $((b", ", c", "", "", ")) d"),
    Long("13", "a $((", "! $((", "b", "))", ")) c"),
    Long("14", "a", " #b\n", "", "", "c"),
    Long("14", "{ a", "\n#b", "", "", "\n}"),
    Long("14", "case a #b\nin\n", "#b\n", "", "", "c) d;; #e\nesac"),
    Long("14", "for a #b\n", "#c\n", "in d #e\ndo", " #f\n", "g; done"),
    Long("14", "a ", "b#c ", "", "", "#d"),
];

const SIZES: &[usize] = &[3, 6, 11, 18, 40, 134, 270];

fn those(tag: &str) -> Vec<&'static Long> {
    LONG.iter().filter(|l| l.0 == tag).collect()
}

/// How many cases there are for a property.
pub fn cases(tag: &str, alphabet: &[&str]) -> u64 {
    (those(tag).len() * SIZES.len() * (alphabet.len() * 2 + 2)) as u64
}

/// The case with the given number.
pub fn recording(tag: &str, alphabet: &[&str], i: u64) -> Option<Recording> {
    let mut i = i as usize;
    let n = alphabet.len() * 2 + 2;
    let edit = i % n;
    i /= n;
    let size = i % SIZES.len();
    i /= SIZES.len();
    if i >= those(tag).len() {
        return None;
    }
    Some([vec![i as u32, size as u32, edit as u32], Vec::new()])
}

pub fn check(tag: &str, alphabet: &[&str], t: &mut Tape, cx: &mut Cx) -> Result<(), String> {
    let those = those(tag);
    let long = those[t.n(those.len() as u32) as usize];
    let size = t.n(SIZES.len() as u32) as usize;
    let edit = t.n(alphabet.len() as u32 * 2 + 2) as usize;
    let Long(_, pre, open, mid, close, post) = long;
    // Constructs within each other are not to be too deep
    let mut n = SIZES[size];
    if !close.is_empty() && n > 24 {
        n = if mid.contains('\n') { 20 + 10 * size } else { 20 + size };
    }
    let text = format!("{}{}{}{}{}", pre, open.repeat(n), mid, close.repeat(n), post);
    cx.nontrivial = true;
    let tokens: Vec<String> = refl::lex(&text).iter().map(|t| refl::text(&t.0)).collect();
    let last = tokens.len();
    let mut places: Vec<usize> = (0..=last).collect();
    if last > 120 {
        // Around the first, middle, and last of them
        places.retain(|&p| p < 8 || p + 20 > last || (last / 2..last / 2 + 10).contains(&p));
    }
    for place in places {
        let mut v: Vec<&str> = tokens.iter().map(|s| s.as_str()).collect();
        match edit {
            0 if place < last => drop(v.remove(place)),
            1 if place < last => v.insert(place, &tokens[place]),
            0 | 1 => continue,
            e if e % 2 == 0 => v.insert(place, alphabet[e / 2 - 1]),
            e if place < last => v[place] = alphabet[e / 2 - 1],
            _ => continue,
        }
        let src = v.concat();
        cx.input.clear();
        cx.input.push_str(&src);
        is_ref(&src)?;
    }
    Ok(())
}
