use super::{clean_letters, str_of};

fn vowel(c: Option<char>) -> bool {
    matches!(c, Some('A' | 'E' | 'I' | 'O' | 'U'))
}

pub fn nysiis(strict: bool, text: &str) -> String {
    let mut w = clean_letters(text);
    if w.is_empty() {
        return String::new();
    }
    // step 1: first characters
    for (from, to) in [("MAC", "MCC"), ("KN", "NN"), ("K", "C"), ("PH", "FF"), ("PF", "FF"), ("SCH", "SSS")] {
        let f: Vec<char> = from.chars().collect();
        if w.starts_with(&f) {
            w.splice(0..f.len(), to.chars());
        }
    }
    // step 2: last characters
    for (ends, to) in [(&["EE", "IE"][..], 'Y'), (&["DT", "RT", "RD", "NT", "ND"][..], 'D')] {
        for e in ends {
            let e: Vec<char> = e.chars().collect();
            if w.ends_with(&e) {
                w.truncate(w.len() - 2);
                w.push(to);
                break;
            }
        }
    }
    // steps 3 to 5: translate in place, drop what repeats the character before
    let mut key = vec![w[0]];
    for i in 1..w.len() {
        let cur = w[i];
        let prev = w[i - 1];
        let n1 = w.get(i + 1).copied();
        let n2 = w.get(i + 2).copied();
        let rep: Vec<char> = match cur {
            'E' if n1 == Some('V') => vec!['A', 'F'],
            'A' | 'E' | 'I' | 'O' | 'U' => vec!['A'],
            'Q' => vec!['G'],
            'Z' => vec!['S'],
            'M' => vec!['N'],
            'K' if n1 == Some('N') => vec!['N', 'N'],
            'K' => vec!['C'],
            'S' if n1 == Some('C') && n2 == Some('H') => vec!['S', 'S', 'S'],
            'P' if n1 == Some('H') => vec!['F', 'F'],
            'H' if !vowel(Some(prev)) || !vowel(n1) => vec![prev],
            'W' if vowel(Some(prev)) => vec![prev],
            c => vec![c],
        };
        for (k, c) in rep.iter().enumerate() {
            w[i + k] = *c;
        }
        if w[i] != w[i - 1] {
            key.push(w[i]);
        }
    }
    // steps 6 to 8: last characters of the key
    if key.len() > 1 {
        if key.ends_with(&['S']) {
            key.pop();
        }
        if key.len() > 2 && key.ends_with(&['A', 'Y']) {
            let y = key.len() - 2;
            key.remove(y);
        }
        if key.ends_with(&['A']) {
            key.pop();
        }
    }
    if strict {
        key.truncate(6);
    }
    str_of(&key)
}
