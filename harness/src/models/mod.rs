//! Reference models: an executable specification of each algorithm, written over `Vec<char>`,
//! sharing no code with the crate under test.
pub mod bm;

pub mod caverphone;
pub mod cologne;
pub mod dm;
pub mod double_metaphone;
pub mod lines;
pub mod metaphone;
pub mod mra;
pub mod nysiis;
pub mod phonex;
pub mod soundex;

/// Letters of a text, uppercased (an uppercase form may have several characters: ß is SS).
pub fn clean_letters(s: &str) -> Vec<char> {
    let mut out = vec![];
    for c in s.chars() {
        if c.is_alphabetic() {
            for u in c.to_uppercase() {
                out.push(u);
            }
        }
    }
    out
}

pub fn upper(s: &str) -> Vec<char> {
    s.chars().flat_map(|c| c.to_uppercase()).collect()
}

pub fn str_of(v: &[char]) -> String {
    v.iter().collect()
}
