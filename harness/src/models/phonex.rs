use super::{clean_letters, str_of};

pub fn phonex(max: usize, text: &str) -> String {
    let mut w = clean_letters(text);
    while w.last() == Some(&'S') {
        w.pop();
    }
    // leading pairs
    if w.len() >= 2 {
        match (w[0], w[1]) {
            ('K', 'N') => w[0] = 'N',
            ('P', 'H') => w[0] = 'F',
            ('W', 'R') => w[0] = 'R',
            _ => {}
        }
    }
    if w.first() == Some(&'H') {
        w.remove(0);
    }
    if let Some(c) = w.first_mut() {
        *c = match *c {
            'E' | 'I' | 'O' | 'U' | 'Y' => 'A',
            'P' => 'B',
            'V' => 'F',
            'K' | 'Q' => 'C',
            'J' => 'G',
            'Z' => 'S',
            c => c,
        };
    }
    let mut out: Vec<char> = vec![];
    let mut code = '0'; // code of the last letter which has one
    let mut last = '0';
    let mut last_pushed = '0';
    let mut i = 0;
    while i < w.len() && out.len() < max {
        let c = w[i];
        let next = w.get(i + 1).copied();
        let first = i == 0;
        if first {
            out.push(c);
            last_pushed = c;
        }
        let sonorous = next.is_none() || matches!(next, Some('A' | 'E' | 'I' | 'O' | 'U' | 'Y'));
        let new = match c {
            'B' | 'P' | 'F' | 'V' => Some('1'),
            'C' | 'S' | 'K' | 'G' | 'J' | 'Q' | 'X' | 'Z' => Some('2'),
            'D' | 'T' if next == Some('C') => None,
            'D' | 'T' => Some('3'),
            'L' if sonorous => Some('4'),
            'M' | 'N' => Some('5'),
            'R' if sonorous => Some('6'),
            'L' | 'R' => None,
            _ => Some('0'),
        };
        if let Some(n) = new {
            code = n;
        }
        // ND, NG, MD, MG: the second letter is not looked at
        let skip = matches!(c, 'M' | 'N') && matches!(next, Some('D' | 'G'));
        let counts = !first || skip;
        if counts && code != last && code != '0' {
            out.push(code);
            last_pushed = code;
        }
        last = if first && !skip { code } else { last_pushed };
        i += if skip { 2 } else { 1 };
    }
    out.truncate(max);
    while out.len() < max {
        out.push('0');
    }
    str_of(&out)
}
