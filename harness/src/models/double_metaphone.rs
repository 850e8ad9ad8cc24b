use super::upper;

pub struct Codes {
    pub primary: String,
    pub alternate: String,
}

struct St {
    w: Vec<char>,
    max: usize,
    p: Vec<char>,
    a: Vec<char>,
    slavic: bool,
}

impl St {
    fn at(&self, i: isize) -> Option<char> {
        if i < 0 {
            None
        } else {
            self.w.get(i as usize).copied()
        }
    }
    /// one of the `|`-separated strings stands at position `i` (a negative position matches nothing)
    fn is(&self, i: isize, alts: &str) -> bool {
        i >= 0 && alts.split('|').any(|a| a.chars().enumerate().all(|(k, c)| self.at(i + k as isize) == Some(c)))
    }
    fn vowel(&self, i: isize) -> bool {
        matches!(self.at(i), Some('A' | 'E' | 'I' | 'O' | 'U' | 'Y' | 'a' | 'e' | 'i' | 'o' | 'u' | 'y'))
    }
    fn last(&self) -> isize {
        self.w.len() as isize - 1
    }
    fn add2(&mut self, p: &str, a: &str) {
        for c in p.chars() {
            if self.p.len() < self.max {
                self.p.push(c);
            }
        }
        for c in a.chars() {
            if self.a.len() < self.max {
                self.a.push(c);
            }
        }
    }
    fn add(&mut self, s: &str) {
        self.add2(s, s)
    }
    fn germanic_start(&self) -> bool {
        self.is(0, "VAN |VON ") || self.is(0, "SCH")
    }
}

pub fn double_metaphone(max: Option<usize>, text: &str) -> Codes {
    let w = upper(text.trim());
    let s: String = w.iter().collect();
    let slavic = s.contains('W') || s.contains('K') || s.contains("CZ") || s.contains("WITZ");
    let mut st = St {
        w,
        max: max.unwrap_or(usize::MAX),
        p: vec![],
        a: vec![],
        slavic,
    };
    let mut i: isize = if st.is(0, "GN|KN|PN|WR|PS") { 1 } else { 0 };
    while i <= st.last() && !(st.p.len() >= st.max && st.a.len() >= st.max) {
        i += step(&mut st, i);
    }
    Codes {
        primary: st.p.into_iter().collect(),
        alternate: st.a.into_iter().collect(),
    }
}

/// Handle the letter at `i`, return how many characters it consumes.
fn step(s: &mut St, i: isize) -> isize {
    let c = match s.at(i) {
        Some(c) => c,
        None => return 1,
    };
    let doubled = |s: &St| if s.at(i + 1) == Some(c) { 2 } else { 1 };
    match c {
        'A' | 'E' | 'I' | 'O' | 'U' | 'Y' => {
            if i == 0 {
                s.add("A");
            }
            1
        }
        'B' => {
            s.add("P");
            doubled(s)
        }
        'Ç' => {
            s.add("S");
            1
        }
        'C' => letter_c(s, i),
        'D' => {
            if s.is(i, "DG") {
                if s.is(i + 2, "I|E|Y") {
                    s.add("J");
                    3
                } else {
                    s.add("TK");
                    2
                }
            } else {
                s.add("T");
                if s.is(i, "DT|DD") {
                    2
                } else {
                    1
                }
            }
        }
        'F' => {
            s.add("F");
            doubled(s)
        }
        'G' => letter_g(s, i),
        'H' => {
            if (i == 0 || s.vowel(i - 1)) && s.vowel(i + 1) {
                s.add("H");
                2
            } else {
                1
            }
        }
        'J' => {
            let san = s.is(0, "SAN ");
            if s.is(i, "JOSE") || san {
                if (i == 0 && s.at(i + 4) == Some(' ')) || s.w.len() == 4 || san {
                    s.add("H");
                } else {
                    s.add2("J", "H");
                }
                1
            } else {
                if i == 0 {
                    s.add2("J", "A");
                } else if s.vowel(i - 1) && !s.slavic && s.is(i + 1, "A|O") {
                    s.add2("J", "H");
                } else if i == s.last() {
                    s.add2("J", " ");
                } else if !s.is(i + 1, "L|T|K|S|N|M|B|Z") && !s.is(i - 1, "S|K|L") {
                    s.add("J");
                }
                doubled(s)
            }
        }
        'K' => {
            s.add("K");
            doubled(s)
        }
        'L' => {
            if s.at(i + 1) == Some('L') {
                // spanish -illo, -illa, -alle
                let n = s.w.len() as isize;
                let spanish = (i == n - 3 && s.is(i - 1, "ILLO|ILLA|ALLE"))
                    || ((s.is(n - 2, "AS|OS") || s.is(n - 1, "A|O")) && s.is(i - 1, "ALLE"));
                s.add2("L", if spanish { "" } else { "L" });
                2
            } else {
                s.add("L");
                1
            }
        }
        'M' => {
            s.add("M");
            if s.at(i + 1) == Some('M') || (s.is(i - 1, "UMB") && (i + 1 == s.last() || s.is(i + 2, "ER"))) {
                2
            } else {
                1
            }
        }
        'N' => {
            s.add("N");
            doubled(s)
        }
        'Ñ' => {
            s.add("N");
            1
        }
        'P' => {
            if s.at(i + 1) == Some('H') {
                s.add("F");
                2
            } else {
                s.add("P");
                if s.is(i + 1, "P|B") {
                    2
                } else {
                    1
                }
            }
        }
        'Q' => {
            s.add("K");
            doubled(s)
        }
        'R' => {
            // french -ier
            let silent = i == s.last() && !s.slavic && s.is(i - 2, "IE") && !s.is(i - 4, "ME|MA");
            s.add2(if silent { "" } else { "R" }, "R");
            doubled(s)
        }
        'S' => letter_s(s, i),
        'T' => {
            if s.is(i, "TION|TIA|TCH") {
                s.add("X");
                3
            } else if s.is(i, "TH|TTH") {
                if s.is(i + 2, "OM|AM") || s.germanic_start() {
                    s.add("T");
                } else {
                    s.add2("0", "T");
                }
                2
            } else {
                s.add("T");
                if s.is(i + 1, "T|D") {
                    2
                } else {
                    1
                }
            }
        }
        'V' => {
            s.add("F");
            doubled(s)
        }
        'W' => {
            if s.is(i, "WR") {
                s.add("R");
                2
            } else if i == 0 && s.vowel(1) {
                s.add2("A", "F");
                1
            } else if i == 0 && s.is(0, "WH") {
                s.add("A");
                1
            } else if (i == s.last() && s.vowel(i - 1))
                || s.is(i - 1, "EWSKI|EWSKY|OWSKI|OWSKY")
                || s.is(0, "SCH")
            {
                s.add2("", "F");
                1
            } else if s.is(i, "WICZ|WITZ") {
                s.add2("TS", "FX");
                4
            } else {
                1
            }
        }
        'X' => {
            if i == 0 {
                s.add("S");
                1
            } else {
                let french = i == s.last() && (s.is(i - 3, "IAU|EAU") || s.is(i - 2, "AU|OU"));
                if !french {
                    s.add("KS");
                }
                if s.is(i + 1, "C|X") {
                    2
                } else {
                    1
                }
            }
        }
        'Z' => {
            if s.at(i + 1) == Some('H') {
                s.add("J");
                2
            } else {
                if s.is(i + 1, "ZO|ZI|ZA") || (s.slavic && i > 0 && s.at(i - 1) != Some('T')) {
                    s.add2("S", "TS");
                } else {
                    s.add("S");
                }
                doubled(s)
            }
        }
        _ => 1,
    }
}

fn letter_c(s: &mut St, i: isize) -> isize {
    let germanic_ach = i > 1
        && !s.vowel(i - 2)
        && s.is(i - 1, "ACH")
        && (!s.is(i + 2, "I|E") || s.is(i - 2, "BACHER|MACHER"));
    if s.is(i, "CHIA") || germanic_ach {
        s.add("K");
        2
    } else if i == 0 && s.is(0, "CAESAR") {
        s.add("S");
        2
    } else if s.is(i, "CH") {
        if i > 0 && s.is(i, "CHAE") {
            s.add2("K", "X");
            return 2;
        }
        let greek = i == 0 && s.is(1, "HARAC|HARIS|HOR|HYM|HIA|HEM") && !s.is(0, "CHORE");
        let hard = s.germanic_start()
            || s.is(i - 2, "ORCHES|ARCHIT|ORCHID")
            || s.is(i + 2, "T|S")
            || ((i == 0 || s.is(i - 1, "A|O|U|E"))
                && (s.is(i + 2, "L|R|N|M|B|H|F|V|W| ") || i + 1 == s.last()));
        if greek || hard {
            s.add("K");
        } else if i == 0 {
            s.add("X");
        } else if s.is(0, "MC") {
            s.add("K");
        } else {
            s.add2("X", "K");
        }
        2
    } else if s.is(i, "CZ") && !s.is(i - 2, "WICZ") {
        s.add2("S", "X");
        2
    } else if s.is(i + 1, "CIA") {
        s.add("X");
        3
    } else if s.is(i, "CC") && !(i == 1 && s.at(0) == Some('M')) {
        if s.is(i + 2, "I|E|H") && !s.is(i + 2, "HU") {
            if (i == 1 && s.at(0) == Some('A')) || s.is(i - 1, "UCCEE|UCCES") {
                s.add("KS");
            } else {
                s.add("X");
            }
            3
        } else {
            s.add("K");
            2
        }
    } else if s.is(i, "CK|CG|CQ") {
        s.add("K");
        2
    } else if s.is(i, "CI|CE|CY") {
        if s.is(i, "CIO|CIE|CIA") {
            s.add2("S", "X");
        } else {
            s.add("S");
        }
        2
    } else {
        s.add("K");
        if s.is(i + 1, " C| Q| G") {
            3
        } else if s.is(i + 1, "C|K|Q") && !s.is(i + 1, "CE|CI") {
            2
        } else {
            1
        }
    }
}

fn letter_g(s: &mut St, i: isize) -> isize {
    let next = s.at(i + 1);
    if next == Some('H') {
        if i == 0 {
            if s.at(2) == Some('I') {
                s.add("J");
            } else {
                s.add("K");
            }
        } else if !s.vowel(i - 1) {
            s.add("K");
        } else if s.is(i - 2, "B|H|D") || s.is(i - 3, "B|H|D") || s.is(i - 4, "B|H") {
            // Parker's rule: silent
        } else if s.at(i - 1) == Some('U') && s.is(i - 3, "C|G|L|R|T") {
            s.add("F");
        } else if s.at(i - 1) != Some('I') {
            s.add("K");
        }
        2
    } else if next == Some('N') {
        if i == 1 && s.vowel(0) && !s.slavic {
            s.add2("KN", "N");
        } else if !s.is(i + 2, "EY") && !s.slavic {
            s.add2("N", "KN");
        } else {
            s.add("KN");
        }
        2
    } else if s.is(i + 1, "LI") && !s.slavic {
        s.add2("KL", "L");
        2
    } else if (i == 0 && s.is(1, "Y|ES|EP|EB|EL|EY|IB|IL|IN|IE|EI|ER"))
        || (s.is(i + 1, "ER|Y")
            && !s.is(0, "DANGER|RANGER|MANGER")
            && !s.is(i - 1, "E|I")
            && !s.is(i - 1, "RGY|OGY"))
    {
        s.add2("K", "J");
        2
    } else if s.is(i + 1, "E|I|Y") || s.is(i - 1, "AGGI|OGGI") {
        if s.germanic_start() || s.is(i + 1, "ET") {
            s.add("K");
        } else if s.is(i + 1, "IER") {
            s.add("J");
        } else {
            s.add2("J", "K");
        }
        2
    } else {
        s.add("K");
        if next == Some('G') {
            2
        } else {
            1
        }
    }
}

fn letter_s(s: &mut St, i: isize) -> isize {
    if s.is(i - 1, "ISL|YSL") {
        1
    } else if i == 0 && s.is(0, "SUGAR") {
        s.add2("X", "S");
        1
    } else if s.is(i, "SH") {
        if s.is(i + 1, "HEIM|HOEK|HOLM|HOLZ") {
            s.add("S");
        } else {
            s.add("X");
        }
        2
    } else if s.is(i, "SIO|SIA") {
        if s.slavic {
            s.add("S");
        } else {
            s.add2("S", "X");
        }
        3
    } else if (i == 0 && s.is(1, "M|N|L|W")) || s.is(i + 1, "Z") {
        s.add2("S", "X");
        if s.is(i + 1, "Z") {
            2
        } else {
            1
        }
    } else if s.is(i, "SC") {
        if s.at(i + 2) == Some('H') {
            if s.is(i + 3, "ER|EN") {
                s.add2("X", "SK");
            } else if s.is(i + 3, "OO|UY|ED|EM") {
                s.add("SK");
            } else if i == 0 && !s.vowel(3) && s.at(3) != Some('W') {
                s.add2("X", "S");
            } else {
                s.add("X");
            }
        } else if s.is(i + 2, "I|E|Y") {
            s.add("S");
        } else {
            s.add("SK");
        }
        3
    } else {
        let french = i == s.last() && s.is(i - 2, "AI|OI");
        s.add2(if french { "" } else { "S" }, "S");
        if s.is(i + 1, "S|Z") {
            2
        } else {
            1
        }
    }
}
