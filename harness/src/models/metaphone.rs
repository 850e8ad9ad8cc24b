use super::{str_of, upper};

pub fn metaphone(max: Option<usize>, text: &str) -> String {
    let w = upper(text);
    if w.len() == 1 && w[0].is_ascii() {
        return str_of(&w);
    }
    // initial exceptions
    let mut l = w.clone();
    match (w.first().copied(), w.get(1).copied()) {
        (Some('K' | 'G' | 'P'), Some('N')) | (Some('A'), Some('E')) | (Some('W'), Some('R')) => {
            l.remove(0);
        }
        (Some('W'), Some('H')) => {
            l.remove(1);
        }
        (Some('X'), _) => l[0] = 'S',
        _ => {}
    }
    let n = l.len();
    let at = |i: isize| -> Option<char> { if i < 0 { None } else { l.get(i as usize).copied() } };
    let vowel = |i: isize| matches!(at(i), Some('A' | 'E' | 'I' | 'O' | 'U' | 'a' | 'e' | 'i' | 'o' | 'u'));
    let front = |i: isize| matches!(at(i), Some('E' | 'I' | 'Y'));
    let here = |i: isize, s: &str| s.chars().enumerate().all(|(k, c)| at(i + k as isize) == Some(c));
    let mut code: Vec<char> = vec![];
    let mut i: isize = 0;
    while (i as usize) < n {
        if let Some(m) = max {
            if code.len() >= m {
                break;
            }
        }
        let c = l[i as usize];
        let prev = at(i - 1);
        let next = at(i + 1);
        let last = next.is_none();
        if c != 'C' && prev == Some(c) {
            i += 1;
            continue;
        }
        let mut step = 1;
        let mut emit = |s: &str| code.extend(s.chars());
        match c {
            'A' | 'E' | 'I' | 'O' | 'U' => {
                if i == 0 {
                    emit(&c.to_string())
                }
            }
            // B unless at the end of a word after M
            'B' => {
                if !(prev == Some('M') && last) {
                    emit("B")
                }
            }
            'C' => {
                if prev == Some('S') && front(i + 1) {
                    // SCE, SCI, SCY: silent
                } else if here(i, "CIA") {
                    emit("X")
                } else if front(i + 1) {
                    emit("S")
                } else if next == Some('H') {
                    if prev == Some('S') {
                        emit("K")
                    } else if i == 0 && n > 3 && vowel(2) {
                        emit("K")
                    } else {
                        emit("X")
                    }
                } else {
                    emit("K")
                }
            }
            'D' => {
                if next == Some('G') && front(i + 2) {
                    emit("J");
                    step = 3;
                } else {
                    emit("T")
                }
            }
            'G' => {
                let final_gh = next == Some('H') && at(i + 2).is_none();
                let gh_cons = next == Some('H') && at(i + 2).is_some() && !vowel(i + 2);
                let gn = i > 0 && next == Some('N');
                if final_gh || gh_cons || gn {
                    // silent
                } else if front(i + 1) && prev != Some('G') {
                    emit("J")
                } else {
                    emit("K")
                }
            }
            'H' => {
                let after_varson = matches!(prev, Some('C' | 'S' | 'P' | 'T' | 'G'));
                if !last && !after_varson && vowel(i + 1) {
                    emit("H")
                }
            }
            'F' | 'J' | 'L' | 'M' | 'N' | 'R' => emit(&c.to_string()),
            'K' => {
                if prev != Some('C') {
                    emit("K")
                }
            }
            'P' => emit(if next == Some('H') { "F" } else { "P" }),
            'Q' => emit("K"),
            'S' => emit(if here(i, "SH") || here(i, "SIO") || here(i, "SIA") { "X" } else { "S" }),
            'T' => {
                if here(i, "TIA") || here(i, "TIO") {
                    emit("X")
                } else if here(i, "TCH") {
                } else if here(i, "TH") {
                    emit("0")
                } else {
                    emit("T")
                }
            }
            'V' => emit("F"),
            'W' | 'Y' => {
                if vowel(i + 1) {
                    emit(&c.to_string())
                }
            }
            'X' => emit("KS"),
            'Z' => emit("S"),
            _ => {}
        }
        i += step;
    }
    if let Some(m) = max {
        code.truncate(m);
    }
    str_of(&code)
}
