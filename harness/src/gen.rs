//! Generators of texts.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;

/// Apply a casing to a text: upper, lower, capitalised, as is, or letter by letter.
pub fn recase(s: &str, mode: u8, mask: u64) -> String {
    match mode % 5 {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        2 => s.to_ascii_lowercase(),
        3 => {
            let mut first = true;
            s.chars()
                .map(|c| {
                    if first && c.is_ascii_alphabetic() {
                        first = false;
                        c.to_ascii_uppercase()
                    } else {
                        c.to_ascii_lowercase()
                    }
                })
                .collect()
        }
        _ => s
            .chars()
            .enumerate()
            .map(|(i, c)| {
                if mask >> (i % 64) & 1 == 1 {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            })
            .collect(),
    }
}

/// Characters which exercise classification and case mapping.
pub const ODD: &[&str] = &[
    "é", "É", "à", "À", "ü", "Ü", "ö", "Ö", "ä", "Ä", "ß", "ẞ", "ç", "Ç", "ñ", "Ñ", "ø", "Ø", "å", "Å", "æ", "Æ",
    "œ", "ő", "Ő", "ű", "Ű", "ŷ", "Ÿ", "ý", "ł", "Ł", "ż", "ś", "ć", "ń", "ą", "ę", "ţ", "ț", "Ț", "ă", "î", "ș",
    "İ", "ı", "ŉ", "ǰ", "ﬁ", "ﬀ", "ﬃ", "ﬆ", "ǅ", "ǆ", "Ǆ", "ΐ", "ΰ", "ς", "σ", "Σ", "α", "κ", "ᾳ", "ᾼ", "ª", "º",
    "\u{212A}", "\u{212B}", "\u{17F}", "ʼ", "\u{300}", "\u{301}", "\u{308}", "\u{345}", "а", "е", "Ж", "я", "ы", "ש",
    "א", "ב", "ا", "中", "日本", "ゃ", "😀", "👍🏽", "\u{200B}", "\u{FEFF}", "\u{0}", "\u{7f}", "\u{a0}", "\u{2003}",
    "\u{3000}", "\u{85}", "\u{2028}", "’", "‘", "–", "½", "²", "Ⅷ", "ⅷ", "𝐀", "ａ", "Ａ", "𐐀", "𐐨",
];

pub const PUNCT: &[&str] = &[
    " ", "  ", "\t", "\n", "\r\n", "-", "--", "'", "’", ".", ",", "&", "/", "\\", "\"", "_", "0", "1", "2", "3", "9",
    "(", ")", "|", "$", "^", "[", "]", "*", "+", "?", "#", "=", ";", ":", "!", "@",
];

pub fn ascii_letter() -> BoxedStrategy<String> {
    prop::char::range('a', 'z').prop_map(|c| c.to_string()).boxed()
}

fn any_char() -> BoxedStrategy<String> {
    any::<char>().prop_map(|c| c.to_string()).boxed()
}

pub fn odd() -> BoxedStrategy<String> {
    select(ODD).prop_map(|s| s.to_string()).boxed()
}

pub fn punct() -> BoxedStrategy<String> {
    select(PUNCT).prop_map(|s| s.to_string()).boxed()
}

fn cat(v: Vec<String>) -> String {
    v.concat()
}

fn cased(s: BoxedStrategy<String>) -> BoxedStrategy<String> {
    (s, 0u8..5, any::<u64>())
        .prop_map(|(s, m, k)| recase(&s, m, k))
        .boxed()
}

/// Words built from an algorithm's trigger strings, random letters in between, any casing.
pub fn words(tokens: &'static [&'static str], max: usize) -> BoxedStrategy<String> {
    let tok = select(tokens).prop_map(|s| s.to_string()).boxed();
    let piece = prop_oneof![4 => tok.clone(), 2 => ascii_letter()];
    cased(vec(piece, 0..=max).prop_map(cat).boxed())
}

/// The same with non-letters and non-ASCII characters thrown in.
pub fn noisy(tokens: &'static [&'static str], max: usize) -> BoxedStrategy<String> {
    let tok = select(tokens).prop_map(|s| s.to_string()).boxed();
    let piece = prop_oneof![5 => tok, 3 => ascii_letter(), 2 => punct(), 2 => odd(), 1 => any_char()];
    cased(vec(piece, 0..=max).prop_map(cat).boxed())
}

/// A two-part text "prefix token + body + suffix token": the start and end rules of an algorithm.
pub fn edged(tokens: &'static [&'static str]) -> BoxedStrategy<String> {
    let tok = || select(tokens).prop_map(|s| s.to_string());
    cased(
        (tok(), vec(ascii_letter(), 0..4), tok())
            .prop_map(|(a, b, c)| format!("{a}{}{c}", b.concat()))
            .boxed(),
    )
}

/// Anything at all.
pub fn wild(max: usize) -> BoxedStrategy<String> {
    let piece = prop_oneof![3 => ascii_letter(), 2 => punct(), 3 => odd(), 2 => any_char()];
    cased(vec(piece, 0..=max).prop_map(cat).boxed())
}

/// The general mixture used by the conformance sections.
pub fn mixture(tokens: &'static [&'static str]) -> BoxedStrategy<String> {
    prop_oneof![
        8 => words(tokens, 6),
        3 => edged(tokens),
        4 => noisy(tokens, 8),
        1 => words(tokens, 30),
        1 => wild(10),
    ]
    .boxed()
}

/// Long texts: pieces repeated up to a length, many of them just around a power of two.
pub fn lengthy(piece: BoxedStrategy<String>, max: usize) -> BoxedStrategy<String> {
    const EDGES: &[usize] = &[31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513];
    let length = prop_oneof![4 => 20usize..140, 4 => select(EDGES), 1 => 140usize..700].prop_map(move |n| n.min(max));
    (vec(piece.clone(), 1..5), length, any::<bool>(), piece)
        .prop_map(|(pieces, length, cut, end)| {
            let body = pieces.concat();
            let n = body.chars().count();
            let k = if n == 0 { 0 } else { length / n + 1 };
            let mut text: String = body.repeat(k).chars().take(length).collect();
            if !cut {
                text.push_str(&end);
            }
            text
        })
        .boxed()
}

/// Texts of 700 to 70,000 characters, made of a few pieces again and again; lengths around powers of
/// two and ten among them.
pub fn very_long(piece: BoxedStrategy<String>, max: usize) -> BoxedStrategy<String> {
    const EDGES: &[usize] = &[900, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10_000, 16_384, 20_000, 32_768, 50_000, 65_536];
    let length = prop_oneof![
        3 => 700usize..2500,
        4 => (select(EDGES), 0usize..7).prop_map(|(n, d)| n + d - 3),
        2 => 2500usize..12_000,
        1 => 12_000usize..70_000,
    ]
    .prop_map(move |n| n.min(max));
    (vec(piece.clone(), 1..7), length, piece)
        .prop_map(|(pieces, length, end)| {
            let body = pieces.concat();
            let n = body.chars().count();
            let k = if n == 0 { 0 } else { length / n + 1 };
            let mut text: String = body.repeat(k).chars().take(length).collect();
            text.push_str(&end);
            text
        })
        .boxed()
}

/// i-th string over an alphabet, in length order (0 is the empty string).
pub fn nth_string(alphabet: &[char], mut i: u64) -> String {
    let k = alphabet.len() as u64;
    let mut len = 0u32;
    let mut block = 1u64;
    while i >= block {
        i -= block;
        block *= k;
        len += 1;
    }
    let mut out = vec!['a'; len as usize];
    for p in (0..len as usize).rev() {
        out[p] = alphabet[(i % k) as usize];
        i /= k;
    }
    out.into_iter().collect()
}

pub fn count_strings(alphabet: usize, max_len: u32) -> u64 {
    (0..=max_len).map(|l| (alphabet as u64).pow(l)).sum()
}

/// i-th Unicode scalar value.
pub fn nth_char(i: u64) -> char {
    let i = i as u32;
    let v = if i < 0xD800 { i } else { i + 0x800 };
    char::from_u32(v).unwrap_or('\u{FFFD}')
}

pub const SCALARS: u64 = 0x110000 - 0x800;

/// Ordinary names, for the encoders meant for names.
pub const NAMES: &[&str] = &[
    "Smith", "Schmidt", "Thompson", "Washington", "Lee", "Gutierrez", "Pfister", "Jackson", "Tymczak", "VanDeusen",
    "Ashcraft", "Robert", "Rupert", "Rubin", "Peters", "Peterson", "Moskowitz", "Auerbach", "Uhrbach", "Lipshitz",
    "Lewinsky", "Levinski", "Szlamawicz", "Rosochowaciec", "Przemysl", "Angelo", "Renault", "Bohm", "Müller",
    "Kowalski", "Ceniow", "Tsenyuv", "Holubica", "Golubitsa", "Schwarzenegger", "Shwarts", "Zelaznogorsk",
    "Michael", "Caesar", "Chemistry", "Orchestra", "Bacchus", "Bellocchio", "McClelland", "Focaccia", "Hugh",
    "Laugh", "Island", "Sugar", "Filipowicz", "Breaux", "Zhao", "Jose", "San Jacinto", "Thumb", "Resnais",
    "Van der Berg", "de la Rosa", "O'Brien", "d'Ortley", "ben Gurion", "al-Hakim", "Fitzgerald", "Garcia", "Nguyen",
    "Ivanov", "Papadopoulos", "Szabó", "Nagy", "Popescu", "Yılmaz", "Novák", "Dvořák", "Cohen", "Levy", "Silva",
];
