use super::str_of;

/// One rewriting rule of the published Caverphone tables.
enum R {
    /// at the start of the word only
    Start(&'static str, &'static str),
    /// at the end of the word only
    End(&'static str, &'static str),
    /// everywhere, left to right, non overlapping
    All(&'static str, &'static str),
    /// first character if it is a lowercase vowel
    FirstVowel,
    /// all the remaining vowels
    Vowels,
    /// runs of one of these letters become one capital letter
    Runs(&'static str),
}
use R::*;

fn v(s: &str) -> Vec<char> {
    s.chars().collect()
}

fn apply(text: &mut Vec<char>, rule: &R) {
    match rule {
        Start(from, to) => {
            let f = v(from);
            if text.starts_with(&f) {
                text.splice(0..f.len(), v(to));
            }
        }
        End(from, to) => {
            let f = v(from);
            if text.ends_with(&f) {
                let n = text.len() - f.len();
                text.splice(n.., v(to));
            }
        }
        All(from, to) => {
            let f = v(from);
            let t = v(to);
            let mut out = vec![];
            let mut i = 0;
            while i < text.len() {
                if text[i..].starts_with(&f) {
                    out.extend(&t);
                    i += f.len();
                } else {
                    out.push(text[i]);
                    i += 1;
                }
            }
            *text = out;
        }
        FirstVowel => {
            if let Some(c) = text.first_mut() {
                if "aeiou".contains(*c) {
                    *c = 'A';
                }
            }
        }
        Vowels => {
            for c in text.iter_mut() {
                if "aeiou".contains(*c) {
                    *c = '3';
                }
            }
        }
        Runs(letters) => {
            let mut out: Vec<char> = vec![];
            let mut i = 0;
            while i < text.len() {
                let c = text[i];
                if letters.contains(c) {
                    while i < text.len() && text[i] == c {
                        i += 1;
                    }
                    out.push(c.to_ascii_uppercase());
                } else {
                    out.push(c);
                    i += 1;
                }
            }
            *text = out;
        }
    }
}

const COMMON_HEAD: &[R] = &[
    Start("cough", "cou2f"),
    Start("rough", "rou2f"),
    Start("tough", "tou2f"),
    Start("enough", "enou2f"),
];

const COMMON_BODY: &[R] = &[
    Start("gn", "2n"),
    End("mb", "m2"),
    All("cq", "2q"),
    All("ci", "si"),
    All("ce", "se"),
    All("cy", "sy"),
    All("tch", "2ch"),
    All("c", "k"),
    All("q", "k"),
    All("x", "k"),
    All("v", "f"),
    All("dg", "2g"),
    All("tio", "sio"),
    All("tia", "sia"),
    All("d", "t"),
    All("ph", "fh"),
    All("b", "p"),
    All("sh", "s2"),
    All("z", "s"),
    FirstVowel,
    Vowels,
];

const V1_TAIL: &[R] = &[
    All("3gh3", "3kh3"),
    All("gh", "22"),
    All("g", "k"),
    Runs("stpkfmn"),
    All("w3", "W3"),
    All("wy", "Wy"),
    All("wh3", "Wh3"),
    All("why", "Why"),
    All("w", "2"),
    Start("h", "A"),
    All("h", "2"),
    All("r3", "R3"),
    All("ry", "Ry"),
    All("r", "2"),
    All("l3", "L3"),
    All("ly", "Ly"),
    All("l", "2"),
    All("j", "y"),
    All("y3", "Y3"),
    All("y", "2"),
    All("2", ""),
    All("3", ""),
];

const V2_TAIL: &[R] = &[
    All("j", "y"),
    Start("y3", "Y3"),
    Start("y", "A"),
    All("y", "3"),
    All("3gh3", "3kh3"),
    All("gh", "22"),
    All("g", "k"),
    Runs("stpkfmn"),
    All("w3", "W3"),
    All("wh3", "Wh3"),
    End("w", "3"),
    All("w", "2"),
    Start("h", "A"),
    All("h", "2"),
    All("r3", "R3"),
    End("r", "3"),
    All("r", "2"),
    All("l3", "L3"),
    End("l", "3"),
    All("l", "2"),
    All("2", ""),
    End("3", "A"),
    All("3", ""),
];

fn run(text: &str, lists: &[&[R]], len: usize) -> String {
    let mut t: Vec<char> = text
        .chars()
        .collect::<String>()
        .to_lowercase()
        .chars()
        .filter(|c| c.is_ascii_lowercase())
        .collect();
    for l in lists {
        for r in *l {
            apply(&mut t, r);
        }
    }
    t.truncate(len);
    t.resize(len, '1');
    str_of(&t)
}

pub fn caverphone1(text: &str) -> String {
    run(text, &[COMMON_HEAD, COMMON_BODY, V1_TAIL], 6)
}

pub fn caverphone2(text: &str) -> String {
    run(
        text,
        &[&[End("e", "")], COMMON_HEAD, &[Start("trough", "trou2f")], COMMON_BODY, V2_TAIL],
        10,
    )
}
