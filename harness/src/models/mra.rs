use super::upper;

const PUNCT: &[char] = &['-', '&', '\'', '.', ','];

fn strip_accent(c: char) -> char {
    const T: &[(&str, char)] = &[
        ("ÀÁÂÃÄÅ", 'A'),
        ("àáâãäå", 'a'),
        ("ÈÉÊË", 'E'),
        ("èéêë", 'e'),
        ("ÌÍÎÏ", 'I'),
        ("ìíîï", 'i'),
        ("ÒÓÔÕÖŐ", 'O'),
        ("òóôõöő", 'o'),
        ("ÙÚÛÜŰ", 'U'),
        ("ùúûüű", 'u'),
        ("ÝŶŸ", 'Y'),
        ("ýŷÿ", 'y'),
        ("Ñ", 'N'),
        ("ñ", 'n'),
        ("Ç", 'C'),
        ("ç", 'c'),
    ];
    T.iter().find(|(s, _)| s.contains(c)).map(|(_, p)| *p).unwrap_or(c)
}

fn trimmed_len(s: &str) -> usize {
    s.trim().chars().count()
}

fn code(text: &str) -> Vec<char> {
    if trimmed_len(text) <= 1 {
        return vec![];
    }
    let name: Vec<char> = upper(text)
        .into_iter()
        .filter(|c| !PUNCT.contains(c) && !c.is_whitespace())
        .map(strip_accent)
        .collect();
    let mut kept: Vec<char> = vec![];
    for (i, c) in name.iter().enumerate() {
        let v = matches!(c, 'A' | 'E' | 'I' | 'O' | 'U' | 'a' | 'e' | 'i' | 'o' | 'u');
        if i == 0 || !v {
            kept.push(*c);
        }
    }
    // each pair of the same consonant is one consonant
    let kept: Vec<char> = kept.into_iter().flat_map(|c| c.to_uppercase()).collect();
    let mut out: Vec<char> = vec![];
    let mut i = 0;
    while i < kept.len() {
        let c = kept[i];
        let consonant = c.is_ascii_uppercase() && !"AEIOU".contains(c);
        if consonant && kept.get(i + 1) == Some(&c) {
            i += 1;
        }
        out.push(c);
        i += 1;
    }
    if out.len() > 6 {
        let tail = out.split_off(out.len() - 3);
        out.truncate(3);
        out.extend(tail);
    }
    out
}

pub fn encode(text: &str) -> String {
    code(text).into_iter().collect()
}

pub fn equal(a: &str, b: &str) -> bool {
    if trimmed_len(a) <= 1 || trimmed_len(b) <= 1 {
        return false;
    }
    if a == b {
        return true;
    }
    let x = code(a);
    let y = code(b);
    if x.len().abs_diff(y.len()) >= 3 {
        return false;
    }
    let minimum = match x.len() + y.len() {
        0..=4 => 5,
        5..=7 => 4,
        8..=11 => 3,
        12 => 2,
        _ => 1,
    };
    rating(&x, &y) >= minimum
}

/// Left to right and right to left comparison; what is left unmatched of the longer one counts
/// against six.
fn rating(x: &[char], y: &[char]) -> usize {
    let mut x: Vec<Option<char>> = x.iter().copied().map(Some).collect();
    let mut y: Vec<Option<char>> = y.iter().copied().map(Some).collect();
    for i in 0..x.len().min(y.len()) {
        if x[i] == y[i] {
            x[i] = None;
            y[i] = None;
        }
        let (p, q) = (x.len() - 1 - i, y.len() - 1 - i);
        if x[p] == y[q] {
            x[p] = None;
            y[q] = None;
        }
    }
    let left = |v: &[Option<char>]| v.iter().flatten().count();
    6usize.abs_diff(left(&x).max(left(&y)))
}
