use super::{clean_letters, str_of};

/// American Soundex and its variants, as a table driven two-step algorithm:
/// 1. give each letter after the first its digit, or "transparent" (silent letters, and H/W when
///    the special case is on: letters around them are still adjacent),
/// 2. walk the digits: keep a digit different from the one of the previous non-transparent letter,
///    and from '0'.
pub fn soundex(mapping: &[char; 26], special_hw: bool, text: &str) -> String {
    let letters: Vec<char> = clean_letters(text)
        .into_iter()
        .filter(|c| c.is_ascii_uppercase())
        .collect();
    if letters.is_empty() {
        return String::new();
    }
    let code = |c: char| mapping[(c as u8 - b'A') as usize];
    let mut seq: Vec<char> = vec![code(letters[0])];
    for &c in &letters[1..] {
        let transparent = (special_hw && (c == 'H' || c == 'W')) || code(c) == '-';
        if !transparent {
            seq.push(code(c));
        }
    }
    let mut out = vec![letters[0]];
    for w in seq.windows(2) {
        if w[1] != '0' && w[1] != w[0] {
            out.push(w[1]);
        }
    }
    out.truncate(4);
    while out.len() < 4 {
        out.push('0');
    }
    str_of(&out)
}

pub fn refined(mapping: &[char; 26], text: &str) -> String {
    let letters: Vec<char> = clean_letters(text)
        .into_iter()
        .filter(|c| c.is_ascii_uppercase())
        .collect();
    let mut digits: Vec<char> = letters
        .iter()
        .map(|c| mapping[(*c as u8 - b'A') as usize])
        .collect();
    digits.dedup();
    match letters.first() {
        None => String::new(),
        Some(f) => format!("{f}{}", str_of(&digits)),
    }
}

pub fn difference(a: &str, b: &str) -> usize {
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    let mut n = 0;
    for i in 0..a.len().min(b.len()) {
        if a[i] == b[i] {
            n += 1;
        }
    }
    n
}

// American Soundex groups: B F P V / C G J K Q S X Z / D T / L / M N / R
pub fn default_mapping() -> [char; 26] {
    let groups = [("BFPV", '1'), ("CGJKQSXZ", '2'), ("DT", '3'), ("L", '4'), ("MN", '5'), ("R", '6')];
    table(&groups, '0')
}

pub fn genealogy_mapping() -> [char; 26] {
    let groups = [("BFPV", '1'), ("CGJKQSXZ", '2'), ("DT", '3'), ("L", '4'), ("MN", '5'), ("R", '6')];
    table(&groups, '-')
}

pub fn refined_mapping() -> [char; 26] {
    let groups = [
        ("BP", '1'),
        ("FV", '2'),
        ("CKS", '3'),
        ("GJ", '4'),
        ("QXZ", '5'),
        ("DT", '6'),
        ("L", '7'),
        ("MN", '8'),
        ("R", '9'),
    ];
    table(&groups, '0')
}

fn table(groups: &[(&str, char)], default: char) -> [char; 26] {
    let mut t = [default; 26];
    for (letters, d) in groups {
        for b in letters.bytes() {
            t[(b - b'A') as usize] = *d;
        }
    }
    t
}
