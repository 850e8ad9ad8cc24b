//! Daitch-Mokotoff: encoding (default and arbitrary rule sets), rule-file reading.

use crate::fw::*;
use crate::gen;
use crate::models::dm::*;
use crate::models::lines::{Damage, Kind, DAMAGE_CHARS};
use crate::{ensure, ensure_eq};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use rphonetic::*;
use serde::{Deserialize, Serialize};

pub const SHIPPED: &str = include_str!("../../data/dmrules.txt");

struct Default_ {
    model: DmModel,
    default: DaitchMokotoffSoundex,
    nofold: DaitchMokotoffSoundex,
    pinned: DaitchMokotoffSoundex,
}

fn must<T>(r: Result<T, PhoneticError>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => panic!("VIOLATES: the shipped rules must load: {e}"),
    }
}

// One per thread: this does not ask more of the encoders than the crate promises here.
fn dflt() -> &'static Default_ {
    thread_local! {
        static C: &'static Default_ = Box::leak(Box::new(Default_ {
            model: DmModel::new(&parse_shipped(SHIPPED)),
            default: DaitchMokotoffSoundex::default(),
            nofold: must(DaitchMokotoffSoundexBuilder::default().ascii_folding(false).build()),
            pinned: must(DaitchMokotoffSoundexBuilder::with_rules(SHIPPED).build()),
        }));
    }
    C.with(|c| *c)
}

/// Both codings of one encoder, with and without branching, against the model.
fn agree(enc: &DaitchMokotoffSoundex, model: &DmModel, folding: bool, s: &str, what: &str) -> Result<Vec<String>, String> {
    let want = model.codes(s, folding, true);
    let first = model.codes(s, folding, false);
    ensure_eq!(enc.inner_soundex(s, true), want, "{what}: branching codes of {s:?}");
    ensure_eq!(enc.soundex(s), want.join("|"), "{what}: soundex({s:?})");
    ensure_eq!(enc.inner_soundex(s, false), first, "{what}: single code of {s:?}");
    ensure_eq!(enc.encode(s), first[0], "{what}: encode({s:?})");
    Ok(want)
}

fn check_default(s: &str, obs: &mut Obs) -> CheckResult {
    let d = dflt();
    let codes = agree(&d.default, &d.model, true, s, "default rules")?;
    agree(&d.nofold, &d.model, false, s, "default rules, folding disabled")?;
    agree(&d.pinned, &d.model, true, s, "builder with the shipped file")?;
    obs.evals(12);
    obs.nontrivial_if(codes.len() > 1 || codes[0] != "000000");
    obs.label_if(codes.len() > 1, "branching");
    obs.label_if(codes.len() > 8, "more than 8 codes");
    obs.label_if(!s.is_ascii(), "non-ascii");
    Ok(())
}

pub const DM_TOKENS: &[&str] = &[
    "a", "e", "i", "o", "u", "j", "y", "ai", "aj", "ay", "au", "eu", "io", "uj", "b", "v", "w", "c", "ch", "ck", "rz",
    "rs", "chs", "cs", "csz", "czs", "cz", "drz", "drs", "ds", "dsh", "dsz", "dz", "dzh", "dzs", "d", "dt", "f", "fb",
    "pf", "ph", "p", "g", "h", "k", "ks", "kh", "x", "l", "m", "n", "mn", "nm", "q", "r", "s", "sch", "schtsch",
    "schtsh", "schtch", "sh", "shtch", "shch", "shtsh", "sht", "scht", "schd", "stch", "stsch", "sc", "strz", "strs",
    "stsh", "st", "szcz", "szcs", "szt", "shd", "szd", "sd", "sz", "tch", "ttch", "ttsch", "th", "trz", "trs", "tsch",
    "tsh", "ts", "tts", "ttsz", "tc", "tz", "ttz", "tzs", "tsz", "t", "ţ", "ț", "ę", "ą", "z", "zd", "zh", "zs", "zsch",
    "zsh", "zdz", "zdzh", "zhd", "zhdzh", "ß", "é", "ł", "ż", "Ą", "Ę", "Ț", "'", "-", " ",
];

// ---------------------------------------------------------------- generated rule sets

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct RuleSetCase {
    rules: DmRules,
    texts: Vec<String>,
}

const PAT_CHARS: &[char] = &['a', 'e', 'y', 'i', 'h', 'b', 's', 't', 'm', 'n', 'z', 'ţ', 'é', 'ß', '中', '😀', '-', '/'];
const TEXT_CHARS: &[char] = &[
    'a', 'e', 'b', 's', 't', 'm', 'n', 'z', 'ţ', 'é', 'ß', '中', '😀', '-', '/', 'A', 'S', 'M', 'N', 'Ţ', 'É', ' ', 'o', 'x', 'y', 'i', 'u', 'h', 'j', 'w', 'Y', 'O', 'ü', '=', '"', '1', 'ã', '#', '*', '|', 'İ', 'ſ',
];

fn replacement() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        6 => select(vec!["0", "1", "2", "3", "4", "5", "6"]).prop_map(String::from),
        3 => select(vec!["43", "4", "54", "66", "94", "34", "445", "1234567", "é", "é9", "X-y", "00"]).prop_map(String::from),
        1 => select(vec!["//", "*/", "/*", " ", "=", "#", "a b", "'", "\t", "1 "]).prop_map(String::from),
    ]
    .boxed()
}

fn alternatives() -> BoxedStrategy<Vec<String>> {
    prop_oneof![3 => vec(replacement(), 1..=1), 2 => vec(replacement(), 2..=3)].boxed()
}

fn pattern() -> BoxedStrategy<String> {
    prop_oneof![
        24 => vec(select(PAT_CHARS), 1..=4).prop_map(|v| v.into_iter().collect()),
        1 => select(vec!["\\\"", "//", "/*", "*/", "=", "==", "#", "1", " ", "a b", "A", "É", "'", "|", "a|b", "ſ", "i\u{307}"]).prop_map(String::from),
    ]
    .boxed()
}

fn dm_rule() -> BoxedStrategy<DmRule> {
    (pattern(), alternatives(), alternatives(), alternatives())
        .prop_map(|(pattern, start, vowel, other)| DmRule { pattern, start, vowel, other })
        .boxed()
}

fn fold_pair() -> BoxedStrategy<(char, char)> {
    let other = || select(vec!['=', '"', '1', 'A', ' ', '#', 'ã', '\u{301}', '|', '\\', 'É', '\u{feff}', 'ſ']);
    let ch = || prop_oneof![5 => select(PAT_CHARS), 1 => other()];
    (ch(), ch()).boxed()
}

pub fn rule_set() -> BoxedStrategy<DmRules> {
    (vec(dm_rule(), 0..10), vec(fold_pair(), 0..4))
        .prop_map(|(rules, folding)| DmRules { rules, folding })
        .boxed()
}

fn dm_text() -> BoxedStrategy<String> {
    vec(select(TEXT_CHARS), 0..9).prop_map(|v| v.into_iter().collect()).boxed()
}

/// Texts made of the patterns of a rule set and of other characters.
fn texts_for(r: &DmRules, raw: &[Vec<(u8, char)>]) -> Vec<String> {
    raw.iter()
        .map(|t| {
            let mut s = String::new();
            for (k, c) in t {
                match r.rules.get((*k as usize / 3) % r.rules.len().max(1)) {
                    Some(rule) if k % 3 != 0 => {
                        if k % 7 == 0 {
                            s.push_str(&rule.pattern.to_uppercase());
                        } else {
                            s.push_str(&rule.pattern);
                        }
                    }
                    _ => s.push(*c),
                }
            }
            s
        })
        .collect()
}

fn raw_texts() -> BoxedStrategy<Vec<Vec<(u8, char)>>> {
    vec(vec((any::<u8>(), select(TEXT_CHARS)), 0..7), 1..5).boxed()
}

/// The canonical file for a rule set.
fn canonical(r: &DmRules) -> String {
    let mut o = String::new();
    for x in &r.rules {
        let [a, b, c, d] = x.quad();
        o.push_str(&format!("\"{a}\" \"{b}\" \"{c}\" \"{d}\"\n"));
    }
    for (a, b) in &r.folding {
        o.push_str(&format!("{a}={b}\n"));
    }
    o
}

/// Without the texts that have too many codes.
fn bounded(mut texts: Vec<String>, rules: DmRules) -> RuleSetCase {
    let model = DmModel::new(&rules);
    texts.retain(|t| !model.too_many(t, 600));
    RuleSetCase { texts, rules }
}

fn large_rule_set_case() -> BoxedStrategy<RuleSetCase> {
    let few = || select(vec!['a', 'b', 's', 'é']);
    let pattern = (few(), prop_oneof![6 => vec(few(), 0..5), 1 => vec(few(), 5..40)]).prop_map(|(c, v)| {
        let mut s = String::from(c);
        s.extend(v);
        s
    });
    let alts = || prop_oneof![12 => vec(replacement(), 1..=1), 4 => vec(replacement(), 2..=3), 1 => vec(replacement(), 4..=12)];
    let rule = (pattern, alts(), alts(), alts()).prop_map(|(pattern, start, vowel, other)| DmRule { pattern, start, vowel, other });
    (prop_oneof![20 => vec(rule.clone(), 10..60), 20 => vec(rule.clone(), 60..300), 1 => vec(rule, 300..1200)], vec(fold_pair(), 0..12), vec(vec((any::<u8>(), select(TEXT_CHARS)), 0..4), 1..4), any::<u8>())
        .prop_map(|(mut rules, folding, raw, turn)| {
            // the texts use the first rules
            let n = rules.len();
            rules.rotate_left(turn as usize % n);
            // short patterns match everywhere in the long ones: the branches must not be too many
            for r in &mut rules {
                if r.pattern.chars().count() < 4 {
                    for v in [&mut r.start, &mut r.vowel, &mut r.other] {
                        v.truncate(1);
                    }
                }
            }
            let rules = DmRules { rules, folding };
            let texts = texts_for(&rules, &raw).into_iter().map(|t| t.chars().take(50).collect()).collect();
            bounded(texts, rules)
        })
        .boxed()
}

/// Patterns of hundreds of letters.
fn huge_pattern_case() -> BoxedStrategy<RuleSetCase> {
    let few = || select(vec!['a', 'b', 's', 'é']);
    let size = || prop_oneof![2 => 1usize..6, 1 => 60usize..200, 3 => select(vec![127usize, 128, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 1100])];
    let run = move || (few(), size(), proptest::option::of(few())).prop_map(|(c, n, end)| {
        let mut s = String::from(c).repeat(n);
        s.extend(end);
        s
    });
    let one = || vec(replacement(), 1..=1);
    let rule = (run(), one(), one(), one()).prop_map(|(pattern, start, vowel, other)| DmRule { pattern, start, vowel, other });
    (vec(rule, 1..7), vec(vec((any::<u8>(), run()), 1..4), 1..4))
        .prop_map(|(rules, raw)| {
            let texts = raw
                .iter()
                .map(|t| {
                    t.iter()
                        .map(|(k, s)| {
                            let p = &rules[*k as usize / 4 % rules.len()].pattern;
                            match k % 4 {
                                0 => s.clone(),
                                // a letter less
                                1 => p.chars().skip(1).collect(),
                                _ => p.clone(),
                            }
                        })
                        .collect::<String>()
                })
                .collect();
            RuleSetCase { texts, rules: DmRules { rules, folding: vec![] } }
        })
        .boxed()
}

fn long_rule_set_case() -> BoxedStrategy<RuleSetCase> {
    (rule_set(), vec(vec((any::<u8>(), select(TEXT_CHARS)), 1..5), 1..4), 2usize..60, any::<u8>())
        .prop_map(|(mut rules, raw, n, keep)| {
            for (i, r) in rules.rules.iter_mut().enumerate() {
                if i != keep as usize % 4 {
                    for v in [&mut r.start, &mut r.vowel, &mut r.other] {
                        v.truncate(1);
                    }
                }
            }
            let texts = texts_for(&rules, &raw).into_iter().enumerate().map(|(i, t)| {
                // a silent start, so that what is far counts
                let t = if i % 2 == 0 { t.repeat(n) } else { format!("{}{t}", "x".repeat(n * 4)) };
                t.chars().take(500).collect()
            });
            bounded(texts.collect(), rules)
        })
        .boxed()
}

fn check_rule_set(c: &RuleSetCase, obs: &mut Obs) -> CheckResult {
    let txt = canonical(&c.rules);
    let model = DmModel::new(&c.rules);
    let fold = DaitchMokotoffSoundexBuilder::with_rules(&txt)
        .build()
        .map_err(|e| format!("valid rules rejected: {e}\n{txt}"))?;
    let plain = DaitchMokotoffSoundexBuilder::with_rules(&txt)
        .ascii_folding(false)
        .build()
        .map_err(|e| format!("valid rules rejected: {e}"))?;
    for t in &c.texts {
        let codes = agree(&fold, &model, true, t, "generated rules")?;
        let codes2 = agree(&plain, &model, false, t, "generated rules, folding disabled")?;
        obs.evals(8);
        obs.nontrivial_if(codes[0] != "000000" || codes.len() > 1);
        obs.label_if(codes.len() > 1, "branching");
        obs.label_if(codes != codes2, "folding matters");
        obs.label_if(codes.iter().any(|c| !c.is_ascii()), "non-ascii code");
    }
    Ok(())
}

// ---------------------------------------------------------------- rule files

#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq)]
pub enum Item {
    Rule(DmRule),
    Fold(char, char),
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum Noise {
    Empty,
    Blank(String),
    Line(String),
    Block(Vec<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Layout {
    /// noise lines before the item
    before: Vec<Noise>,
    seps: [String; 3],
    trail: String,
    comment: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct FileCase {
    items: Vec<(Item, Layout)>,
    tail: Vec<Noise>,
    crlf: bool,
    final_newline: bool,
    texts: Vec<String>,
}

pub fn spaces(min: usize) -> BoxedStrategy<String> {
    vec(select(vec![' ', ' ', '\t']), min..=3).prop_map(|v| v.into_iter().collect()).boxed()
}

const COMMENT_BITS: &[&str] = &[
    "a", "word", " ", "\t", "//", "\"", "\"b\" \"1\" \"2\" \"3\"", "a=b", "=", "é", "中", "*", "/", "#", "|", "^", "1", "/* ",
];

pub fn comment_text() -> BoxedStrategy<String> {
    vec(select(COMMENT_BITS), 0..4).prop_map(|v| v.concat()).boxed()
}

/// No end of comment inside, and none formed with what follows.
fn unclose(c: &str) -> String {
    let mut c = c.to_string();
    while c.contains("*/") {
        c = c.replace("*/", "");
    }
    c.trim_end_matches('*').to_string()
}

pub fn noise() -> BoxedStrategy<Noise> {
    prop_oneof![
        2 => Just(Noise::Empty),
        1 => spaces(1).prop_map(Noise::Blank),
        3 => (spaces(0), comment_text()).prop_map(|(s, c)| Noise::Line(format!("{s}//{c}"))),
        // a block comment ends at the first "*/"
        3 => vec(comment_text().prop_map(|c| unclose(&c)), 1..4).prop_map(Noise::Block),
    ]
    .boxed()
}

fn layout() -> BoxedStrategy<Layout> {
    (
        prop_oneof![2 => Just(vec![]), 1 => vec(noise(), 1..3)],
        [spaces(1), spaces(1), spaces(1)],
        spaces(0),
        proptest::option::weighted(0.3, comment_text()),
    )
        .prop_map(|(before, seps, trail, comment)| Layout { before, seps, trail, comment })
        .boxed()
}

fn item() -> BoxedStrategy<Item> {
    prop_oneof![4 => dm_rule().prop_map(Item::Rule), 1 => fold_pair().prop_map(|(a, b)| Item::Fold(a, b))].boxed()
}

fn file_case() -> BoxedStrategy<FileCase> {
    (
        vec((item(), layout()), 0..8),
        vec(noise(), 0..3),
        any::<bool>(),
        any::<bool>(),
        vec(dm_text(), 1..4),
    )
        .prop_map(|(items, tail, crlf, final_newline, texts)| FileCase { items, tail, crlf, final_newline, texts })
        .boxed()
}

pub fn noise_lines(n: &Noise, out: &mut Vec<String>) {
    match n {
        Noise::Empty => out.push(String::new()),
        Noise::Blank(s) | Noise::Line(s) => out.push(s.clone()),
        Noise::Block(v) => {
            let joined = format!("/*{}*/", v.join("\n"));
            out.extend(joined.split('\n').map(|s| s.to_string()));
        }
    }
}

fn item_line(i: &Item, l: &Layout) -> String {
    let mut s = match i {
        Item::Rule(r) => {
            let [a, b, c, d] = r.quad();
            format!("\"{a}\"{}\"{b}\"{}\"{c}\"{}\"{d}\"", l.seps[0], l.seps[1], l.seps[2])
        }
        Item::Fold(a, b) => format!("{a}={b}"),
    };
    s.push_str(&l.trail);
    if let Some(c) = &l.comment {
        s.push_str("//");
        s.push_str(c);
    }
    s
}

impl FileCase {
    fn lines(&self) -> Vec<String> {
        let mut out = vec![];
        for (i, l) in &self.items {
            for n in &l.before {
                noise_lines(n, &mut out);
            }
            out.push(item_line(i, l));
        }
        for n in &self.tail {
            noise_lines(n, &mut out);
        }
        out
    }
    fn rules(&self) -> DmRules {
        let mut r = DmRules::default();
        for (i, _) in &self.items {
            match i {
                Item::Rule(x) => r.rules.push(x.clone()),
                Item::Fold(a, b) => r.folding.push((*a, *b)),
            }
        }
        r
    }
}

pub fn assemble(lines: &[String], crlf: bool, final_newline: bool) -> String {
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut s = lines.join(nl);
    // inside a block comment the separator is the same
    if final_newline && !lines.is_empty() {
        s.push_str(nl);
    }
    s
}

fn check_file(c: &FileCase, obs: &mut Obs) -> CheckResult {
    let lines = c.lines();
    let txt = assemble(&lines, c.crlf, c.final_newline);
    let rules = c.rules();
    let got = DaitchMokotoffSoundexBuilder::with_rules(&txt)
        .build()
        .map_err(|e| format!("valid rule file rejected: {e}\n{txt:?}"))?;
    let canon_txt = canonical(&rules);
    let canon = DaitchMokotoffSoundexBuilder::with_rules(&canon_txt)
        .build()
        .map_err(|e| format!("valid rule file rejected: {e}\n{canon_txt:?}"))?;
    ensure!(got == canon, "the layout of the file changes the encoder: {txt:?} / {canon_txt:?}");
    let model = DmModel::new(&rules);
    for t in &c.texts {
        agree(&got, &model, true, t, "rule file")?;
    }
    obs.evals(1 + 4 * c.texts.len() as u64);
    obs.nontrivial_if(c.items.len() >= 2 && lines.len() > c.items.len());
    obs.label_if(c.crlf, "crlf");
    obs.label_if(lines.iter().any(|l| l.starts_with("/*")), "block comment");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct BadFileCase {
    file: FileCase,
    /// where the bad line goes (index modulo the number of slots between items)
    at: usize,
    bad: String,
    folding: bool,
}

const BAD_LINES: &[&str] = &[
    "garbage",
    "\"a\" \"1\" \"2\"",
    "\"a\" \"b",
    "\"a\" \"b\" \"c\" \"",
    "\"",
    "\"a\" \"1\" \"2\" \"3\" \"4\"",
    "\"a\" \"1\" \"2\" \"3\" x",
    "\"a\"\"1\" \"2\" \"3\"",
    "\"a\" \"1\" \"2\" 3",
    "\"\" \"1\" \"2\" \"3\"",
    "a=",
    "=a",
    "ab=c",
    "a=bc",
    "a = b",
    "a=b c",
    "/* unfinished",
    "/",
    "é",
    "  \"a\" \"1\" \"2\" \"3\"",
    "\"a\", \"1\", \"2\", \"3\"",
    "* /",
    "1",
];

/// A damage to a valid line, or none.
pub fn damage(p: f64) -> BoxedStrategy<Option<Damage>> {
    proptest::option::weighted(
        p,
        (any::<u8>(), any::<u16>(), select(DAMAGE_CHARS)).prop_map(|(op, at, with)| Damage { op, at, with }),
    )
    .boxed()
}

fn check_bad_file(c: &BadFileCase, obs: &mut Obs) -> CheckResult {
    check_bad_file_after(&[], c, obs)
}

/// Lines without items.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Pad {
    kind: u8,
    lines: u32,
}

impl Pad {
    pub fn lines(&self) -> Vec<String> {
        let n = self.lines as usize;
        let mut v: Vec<String> = match self.kind % 4 {
            0 => vec![String::new(); n],
            1 => vec!["// a comment".to_string(); n],
            2 => vec!["text".to_string(); n],
            _ => (0..n).map(|i| if i % 2 == 0 { "/* two".to_string() } else { "lines */".to_string() }).collect(),
        };
        if self.kind % 4 == 2 && n > 0 {
            v[0].insert_str(0, "/*");
            v[n - 1].push_str("*/");
        }
        if self.kind % 4 == 3 && n % 2 == 1 {
            v[n - 1] = "// one".to_string();
        }
        v
    }
}

pub fn pad() -> BoxedStrategy<Pad> {
    (any::<u8>(), prop_oneof![2 => 0u32..40, 4 => 90u32..2000, 1 => 2000u32..30_000, 1 => 65_000u32..67_000])
        .prop_map(|(kind, lines)| Pad { kind, lines })
        .boxed()
}

/// A file that starts with many lines without items.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct LongFileCase {
    bad: BadFileCase,
    pad: Pad,
}

fn check_long_file(c: &LongFileCase, obs: &mut Obs) -> CheckResult {
    let lines = c.pad.lines();
    let file = &c.bad.file;
    let mut all = lines.clone();
    all.extend(file.lines());
    let got = DaitchMokotoffSoundexBuilder::with_rules(&assemble(&all, file.crlf, file.final_newline))
        .build()
        .map_err(|e| format!("valid rule file rejected: {e}"))?;
    let canon = DaitchMokotoffSoundexBuilder::with_rules(&canonical(&file.rules())).build().map_err(|e| format!("valid rule file rejected: {e}"))?;
    ensure!(got == canon, "{} lines in front of the file change the encoder", lines.len());
    check_bad_file_after(&lines, &c.bad, obs)
}

fn check_bad_file_after(pad: &[String], c: &BadFileCase, obs: &mut Obs) -> CheckResult {
    // lines before the insertion point: whole items only, so that comments stay closed
    let n = c.file.items.len();
    let at = if n == 0 { 0 } else { c.at % (n + 1) };
    let mut before = FileCase { items: c.file.items[..at].to_vec(), tail: vec![], ..c.file.clone() };
    before.texts.clear();
    let after = FileCase { items: c.file.items[at..].to_vec(), ..c.file.clone() };
    let mut lines = pad.to_vec();
    lines.extend(before.lines());
    let expected_line = lines.len() + 1;
    lines.push(c.bad.clone());
    let mut rest = after.lines();
    if c.bad.contains("/*") {
        // nothing may close it
        rest.retain(|l| !l.contains("*/"));
    }
    lines.extend(rest);
    let txt = assemble(&lines, c.file.crlf, c.file.final_newline);
    let r = DaitchMokotoffSoundexBuilder::with_rules(&txt).ascii_folding(c.folding).build();
    let txt: String = txt.chars().take(2000).collect();
    match r {
        Ok(_) => Err(format!("line {expected_line} {:?} accepted in {txt:?}", c.bad)),
        Err(PhoneticError::ParseRuleError(e)) => {
            ensure_eq!(e.line_number, expected_line, "line of the error in {txt:?}");
            ensure_eq!(e.line_content.trim_end_matches('\r'), c.bad.as_str(), "content of the error in {txt:?}");
            ensure_eq!(e.filename, None, "file name of the error");
            obs.eval();
            obs.nontrivial_if(expected_line > 1);
            obs.label_if(!BAD_LINES.contains(&c.bad.as_str()), "damaged line");
            obs.label_if(lines[..expected_line - 1].iter().any(|l| l.starts_with("/*")), "after a block comment");
            Ok(())
        }
        Err(e) => Err(format!("unexpected error {e:?} for {txt:?}")),
    }
}

fn bad_file_case() -> BoxedStrategy<BadFileCase> {
    (file_case(), 0usize..12, select(BAD_LINES), any::<bool>(), damage(0.6), any::<u8>())
        .prop_map(|(file, at, bad, folding, dmg, which)| {
            let line = match file.items.len() {
                0 => None,
                n => file.items.get(which as usize % n).map(|(i, l)| item_line(i, l)),
            };
            let bad = match (dmg, line) {
                (Some(d), Some(l)) => d.malformed(Kind::DmRules, &l).unwrap_or(bad.to_string()),
                _ => bad.to_string(),
            };
            BadFileCase { file, at, bad, folding }
        })
        .boxed()
}

/// Two files with the same items in another order of unrelated rules.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct OrderCase {
    rules: DmRules,
    keys: Vec<u8>,
    texts: Vec<String>,
}

fn check_order(c: &OrderCase, obs: &mut Obs) -> CheckResult {
    // patterns distinct, so that only lengths decide between rules
    let mut r = c.rules.clone();
    let mut seen = std::collections::HashSet::new();
    r.rules.retain(|x| seen.insert(x.pattern.clone()));
    let mut seen = std::collections::HashSet::new();
    r.folding.retain(|x| seen.insert(x.0));
    let mut shuffled = r.clone();
    let mut keyed: Vec<(u8, DmRule)> = shuffled
        .rules
        .iter()
        .enumerate()
        .map(|(i, x)| (c.keys.get(i).copied().unwrap_or(0), x.clone()))
        .collect();
    keyed.sort_by_key(|(k, _)| *k);
    shuffled.rules = keyed.into_iter().map(|(_, x)| x).collect();
    shuffled.folding.reverse();
    let (ta, tb) = (canonical(&r), canonical(&shuffled));
    let a = DaitchMokotoffSoundexBuilder::with_rules(&ta).build().map_err(|e| e.to_string())?;
    let b = DaitchMokotoffSoundexBuilder::with_rules(&tb).build().map_err(|e| e.to_string())?;
    for t in &c.texts {
        ensure_eq!(b.soundex(t), a.soundex(t), "rules reordered, soundex of {t:?}");
    }
    obs.evals(c.texts.len() as u64);
    obs.nontrivial_if(r.rules != shuffled.rules);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C12",
            assumptions: &[
                "the reference model is right about the Daitch-Mokotoff procedure (longest pattern first, branch order, adjacent equal codes, mn/nm exception)",
                "texts and rule patterns contain no NUL at the start of a rule",
            ],
            sections: || {
                let red: &'static [char] = &['a', 'e', 'c', 'h', 's', 't', 'z', 'r', 'm', 'n'];
                let az: &'static [char] = Box::leak(('a'..='z').collect::<Vec<_>>().into_boxed_slice());
                vec![
                    exhaustive(
                        "default-letters",
                        "every a-z string up to the bound, default rules; non-trivial: several codes or a code other than 000000",
                        move |t| gen::count_strings(az.len(), if t == Tier::Quick { 3 } else { 4 }),
                        move |i| gen::nth_string(az, i),
                        |s: &String, o: &mut Obs| check_default(s, o),
                    ),
                    exhaustive(
                        "default-reduced",
                        "every string over letters that start long patterns, deeper bound, default rules; non-trivial: as above",
                        move |t| gen::count_strings(red.len(), if t == Tier::Quick { 5 } else { 6 }),
                        move |i| gen::nth_string(red, i),
                        |s: &String, o: &mut Obs| check_default(s, o),
                    ),
                    exhaustive(
                        "default-unicode",
                        "every Unicode scalar alone, between vowels and around m/n; non-trivial: as above",
                        |t| if t == Tier::Quick { gen::SCALARS } else { gen::SCALARS * 3 },
                        |i| {
                            let c = gen::nth_char(i % gen::SCALARS);
                            match i / gen::SCALARS {
                                0 => format!("ba{c}en"),
                                1 => c.to_string(),
                                _ => format!("m{c}nts"),
                            }
                        },
                        |s: &String, o: &mut Obs| check_default(s, o),
                    ),
                    random(
                        "default-texts",
                        "texts assembled from the patterns of the shipped rules, letters, punctuation and non-ASCII characters; non-trivial: as above, distinct texts",
                        750_000,
                        16_000_000,
                        |_| prop_oneof![9 => gen::mixture(DM_TOKENS), 1 => gen::noisy(gen::NAMES, 2)].boxed(),
                        |s: &String, o: &mut Obs| check_default(s, o),
                    ),
                    random(
                        "long-texts",
                        "such texts repeated to 20 to 700 characters; non-trivial: as above",
                        8_000,
                        400_000,
                        |_| gen::lengthy(gen::mixture(DM_TOKENS), 700),
                        |s: &String, o: &mut Obs| check_default(s, o),
                    ),
                    random(
                        "very-long-texts",
                        "such texts repeated to 700 to 70,000 characters; non-trivial: as above",
                        300,
                        8_000,
                        |_| gen::very_long(gen::mixture(DM_TOKENS), 70_000),
                        |s: &String, o: &mut Obs| check_default(s, o),
                    ),
                    random(
                        "rule-sets",
                        "generated rule sets (overlapping and non-ASCII patterns, several branches, multi-character replacements, folding pairs) and texts; non-trivial: some text has a code other than 000000",
                        500_000,
                        12_000_000,
                        |_| {
                            (rule_set(), raw_texts(), vec(dm_text(), 0..2))
                                .prop_map(|(rules, raw, more)| {
                                    let mut texts = texts_for(&rules, &raw);
                                    texts.extend(more);
                                    RuleSetCase { rules, texts }
                                })
                                .boxed()
                        },
                        check_rule_set,
                    ),
                    random(
                        "large-rule-sets",
                        "generated rule sets of up to 1,200 rules, patterns of up to 40 letters and up to 12 alternatives; texts of up to three patterns; non-trivial: as above",
                        8_000,
                        200_000,
                        |_| large_rule_set_case(),
                        check_rule_set,
                    ),
                    random(
                        "huge-patterns",
                        "generated rule sets whose patterns have up to 1,100 letters; non-trivial: as above",
                        6_000,
                        150_000,
                        |_| huge_pattern_case(),
                        check_rule_set,
                    ),
                    random(
                        "long-texts-rule-sets",
                        "generated rule sets with few alternatives and texts of up to 500 characters; non-trivial: as above",
                        8_000,
                        300_000,
                        |_| long_rule_set_case(),
                        check_rule_set,
                    ),
                ]
            },
        },
        Property {
            id: "C13",
            assumptions: &["the grammar of a rule file is the one documented on DaitchMokotoffSoundex (quadruplets, a=b foldings, // and /* */ comments, blank lines)"],
            sections: || {
                vec![
                    random(
                        "layouts",
                        "generated rule files: quadruplets and foldings in any spacing, comments of both kinds, blank lines, LF or CRLF, with or without final newline; the encoder must equal the one of the bare file and follow the model; non-trivial: two items and noise lines",
                        400_000,
                        10_000_000,
                        |_| file_case(),
                        check_file,
                    ),
                    random(
                        "errors",
                        "one malformed line (of a list, or a valid line with one character removed, added, replaced or exchanged, or cut short) placed in a generated valid file: build must return ParseRuleError with that line's number and content; non-trivial: not on the first line",
                        300_000,
                        8_000_000,
                        |_| bad_file_case(),
                        check_bad_file,
                    ),
                    random(
                        "long-files",
                        "the same files after up to 67,000 lines of comments or blank lines: same encoder, and the malformed line is located; non-trivial: as above",
                        1_000,
                        20_000,
                        |_| (bad_file_case(), pad()).prop_map(|(bad, pad)| LongFileCase { bad, pad }).boxed(),
                        check_long_file,
                    ),
                    random(
                        "rule-order",
                        "rules with distinct patterns written in another order give the same codes; non-trivial: the order did change",
                        300_000,
                        6_000_000,
                        |_| {
                            (rule_set(), vec(any::<u8>(), 10), raw_texts())
                                .prop_map(|(rules, keys, raw)| {
                                    let texts = texts_for(&rules, &raw);
                                    OrderCase { rules, keys, texts }
                                })
                                .boxed()
                        },
                        check_order,
                    ),
                ]
            },
        },
    ]
}
