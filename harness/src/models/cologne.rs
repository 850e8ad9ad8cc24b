use super::upper;

/// Kölner Phonetik, from the published table: a digit per letter depending on its neighbours, then
/// removal of repeated digits and of every 0 but a leading one.
pub fn cologne(text: &str) -> String {
    let t: Vec<char> = upper(text)
        .into_iter()
        .map(|c| match c {
            'Ä' => 'A',
            'Ö' => 'O',
            'Ü' => 'U',
            c => c,
        })
        .collect();
    let mut out: Vec<char> = vec![];
    // last emitted symbol, H emits '-'
    let mut last_sym: Option<char> = None;
    let mut prev: Option<char> = None; // previous A-Z letter
    for i in 0..t.len() {
        let c = t[i];
        if !('A'..='Z').contains(&c) {
            continue;
        }
        let next = t.get(i + 1).copied().unwrap_or('-');
        let n_in = |s: &str| s.contains(next);
        let p_in = |s: &str| prev.is_some_and(|p| s.contains(p));
        let syms: &[char] = match c {
            'A' | 'E' | 'I' | 'J' | 'O' | 'U' | 'Y' => &['0'],
            'H' => &['-'],
            'B' => &['1'],
            'P' if next == 'H' => &['3'],
            'P' => &['1'],
            'D' | 'T' if n_in("CSZ") => &['8'],
            'D' | 'T' => &['2'],
            'F' | 'V' | 'W' => &['3'],
            'G' | 'K' | 'Q' => &['4'],
            'X' if p_in("CKQ") => &['8'],
            'X' => &['4', '8'],
            'L' => &['5'],
            'M' | 'N' => &['6'],
            'R' => &['7'],
            'S' | 'Z' => &['8'],
            'C' if out.is_empty() => {
                if n_in("AHKLOQRUX") {
                    &['4']
                } else {
                    &['8']
                }
            }
            'C' => {
                if p_in("SZ") || !n_in("AHKOQUX") {
                    &['8']
                } else {
                    &['4']
                }
            }
            _ => &[],
        };
        for s in syms {
            let repeated = last_sym == Some(*s);
            if *s != '-' && !repeated && (*s != '0' || out.is_empty()) {
                out.push(*s);
            }
            last_sym = Some(*s);
        }
        prev = Some(c);
    }
    out.into_iter().collect()
}
