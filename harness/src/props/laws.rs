//! Laws that hold across the encoders: totality, purity, comparisons, output formats, invariances,
//! length limits, Beider-Morse output structure, language sets, character slices, serialization,
//! embedded defaults.

use crate::fw::*;
use crate::gen;
use crate::models::bm::{Nt, Opts, Rt};
use crate::props::{bm, enc, ops};
use crate::{ensure, ensure_eq};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use rphonetic::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

fn letters(s: &str) -> usize {
    s.chars().filter(|c| c.is_alphabetic()).count()
}

fn family() -> BoxedStrategy<&'static str> {
    select(ops::FAMILIES).boxed()
}

/// A text directed at any of the algorithms.
pub fn any_text() -> BoxedStrategy<String> {
    family().prop_flat_map(ops::family_text).boxed()
}

/// Beider-Morse takes seconds for long names.
fn suited(family: &str, text: String) -> String {
    if family.starts_with("bm") {
        text.chars().take(80).collect()
    } else {
        text
    }
}

/// A text close to another: same prefix, other casing, a character more or less, glued, cut.
pub fn variant(s: String) -> BoxedStrategy<String> {
    let piece = prop_oneof![3 => gen::ascii_letter(), 1 => gen::punct(), 1 => gen::odd(), 1 => Just(String::new())];
    (0u8..13, any::<u16>(), piece, any::<u64>())
        .prop_map(move |(kind, at, p, mask)| {
            let v: Vec<char> = s.chars().collect();
            let k = at as usize % (v.len() + 1);
            let join = |a: &[char], m: &str, b: &[char]| {
                let mut o: String = a.iter().collect();
                o.push_str(m);
                o.extend(b);
                o
            };
            match kind {
                0 => gen::recase(&s, 1, 0),
                1 => gen::recase(&s, 2, 0),
                2 => gen::recase(&s, 4, mask),
                3 => join(&v[..k], "", &[]),
                4 => join(&v[k..], "", &[]),
                5 => format!("{s}{p}"),
                6 => format!("{p}{s}"),
                7 => join(&v[..k], &p, &v[k..]),
                8 if k < v.len() => join(&v[..k], &p, &v[k + 1..]),
                9 => v.iter().rev().collect(),
                10 => format!("{s}{s}"),
                11 => format!(" {s}"),
                _ => join(&v[..k], " ", &v[k..]),
            }
        })
        .boxed()
}

// ---------------------------------------------------------------- totality

const AROUND: &[(&str, &str)] = &[("", ""), ("a", ""), ("", "e"), ("Sc", "ha"), ("mac", "cz"), ("X", "é")];

fn run_light(s: &str) {
    for (f, _, e) in ops::encoders() {
        if !f.starts_with("bm") {
            let _ = e.encode(s);
        }
    }
    let d = DoubleMetaphone::default();
    let _ = d.encode_alternate(s);
    let _ = d.double_metaphone(s).to_string();
}

fn run_slow(s: &str) {
    for (f, _, e) in ops::encoders() {
        if f.starts_with("bm") {
            let _ = e.encode(s);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Totality {
    text: String,
    other: String,
    /// 0: as is, otherwise the text is repeated up to that many characters
    repeat: u16,
    max: usize,
}

fn check_total(c: &Totality, obs: &mut Obs) -> CheckResult {
    let text: String = if c.repeat > 0 && !c.text.is_empty() {
        c.text.chars().cycle().take(c.repeat as usize).collect()
    } else {
        c.text.clone()
    };
    run_light(&text);
    let max = c.max;
    for l in [Some(max), None] {
        let _ = Metaphone::new(l).encode(&text);
        let d = DoubleMetaphone::new(l);
        let r = d.double_metaphone(&text);
        let _ = (r.primary(), r.alternate(), r.to_string());
        let _ = d.is_double_metaphone_equal(&text, &c.other, true);
    }
    let _ = Phonex::new(max.min(5000)).encode(&text);
    let x = Soundex::default();
    let y = RefinedSoundex::default();
    let _ = (x.difference(&text, &c.other), y.difference(&text, &c.other), x.difference(&c.other, &text));
    for (f, _, e) in ops::encoders() {
        if !f.starts_with("bm") {
            let _ = (e.is_encoded_equals(&text, &c.other), e.is_encoded_equals(&c.other, &text));
        }
    }
    obs.evals(60);
    obs.nontrivial_if(letters(&c.text) >= 2 || !c.text.is_ascii());
    obs.label_if(!text.is_ascii(), "non-ascii");
    obs.label_if(text.len() > 200, "long");
    obs.label_if(text.chars().any(|c| c.is_control()), "control characters");
    Ok(())
}

fn total_dm(c: &Totality, obs: &mut Obs) -> CheckResult {
    // Daitch-Mokotoff with branching: the number of codes grows with the text
    let text: String = c.text.chars().take(40).collect();
    for fold in [true, false] {
        let Ok(e) = DaitchMokotoffSoundexBuilder::default().ascii_folding(fold).build() else {
            return Err("the embedded rules are refused".into());
        };
        let _ = (e.soundex(&text), e.inner_soundex(&text, true), e.inner_soundex(&text, false));
        let _ = (e.encode(&c.other), e.is_encoded_equals(&text, &c.other));
    }
    obs.evals(10);
    obs.nontrivial_if(letters(&text) >= 2 || !text.is_ascii());
    Ok(())
}

fn totality_case() -> BoxedStrategy<Totality> {
    let text = prop_oneof![6 => any_text(), 2 => gen::wild(12), 1 => (any_text(), any_text()).prop_map(|(a, b)| format!("{a} {b}"))];
    (
        text,
        any_text(),
        prop_oneof![12 => Just(0u16), 1 => 1u16..400],
        prop_oneof![6 => 0usize..12, 1 => 12usize..2000, 1 => Just(usize::MAX), 1 => any::<usize>()],
    )
        .prop_map(|(text, other, repeat, max)| Totality { text, other, repeat, max })
        .boxed()
}

fn long_case() -> BoxedStrategy<Totality> {
    (any_text(), any_text(), 400u16..2500, 0usize..20)
        .prop_map(|(text, other, repeat, max)| Totality { text, other, repeat, max })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct BmTotal {
    o: Opts,
    text: String,
    full: bool,
    langs: Option<BTreeSet<u8>>,
    repeat: u8,
}

fn bm_languages(c: &BmTotal) -> LanguageSet {
    let all: Vec<&String> = bm::shipped().model.languages[c.o.nt.name()].iter().collect();
    match &c.langs {
        None => LanguageSet::Any,
        Some(s) if s.is_empty() => LanguageSet::NoLanguages,
        // the embedded rules know one language; the others are unknown to them
        Some(s) if !c.full && s.len() == 1 && s.contains(&0) => LanguageSet::from(vec!["any"]),
        Some(s) => LanguageSet::from(s.iter().map(|i| if *i >= 18 { "klingon" } else { all[*i as usize % all.len()].as_str() }).collect::<Vec<_>>()),
    }
}

fn check_bm_total(c: &BmTotal, obs: &mut Obs) -> CheckResult {
    let text: String = if c.repeat > 0 && !c.text.is_empty() {
        c.text.chars().cycle().take(c.repeat as usize).collect()
    } else {
        c.text.clone()
    };
    let cfg = if c.full { bm::full() } else { bm::embedded() };
    let e = bm::encoder(cfg, &c.o);
    let _ = e.encode(&text);
    let ls = bm_languages(c);
    let _ = e.encode_with_languages(&text, &ls);
    let _ = e.is_encoded_equals(&text, &c.text);
    obs.evals(4);
    obs.nontrivial_if(letters(&c.text) >= 2 || !c.text.is_ascii());
    obs.label_if(c.full, "commons-codec rules");
    obs.label_if(!text.is_ascii(), "non-ascii");
    obs.label_if(c.langs.is_some(), "languages given");
    Ok(())
}

fn bm_total_case() -> BoxedStrategy<BmTotal> {
    (
        bm::opts(),
        any::<bool>(),
        proptest::option::of(proptest::collection::btree_set(0u8..20, 0..4)),
        prop_oneof![9 => Just(0u8), 1 => 1u8..100],
    )
        .prop_flat_map(|(o, full, langs, repeat)| {
            let t = prop_oneof![6 => bm::any_text(o.nt), 1 => any_text().prop_map(|t| suited("bm", t)), 2 => gen::wild(10)];
            t.prop_map(move |text| {
                let mut o = o.clone();
                o.max = o.max.min(if text.chars().count() > 12 || repeat > 0 { 60 } else { 200 });
                BmTotal { o, text, full, langs: langs.clone(), repeat }
            })
        })
        .boxed()
}

/// Rule-like texts: fragments of the grammar and noise.
fn rule_soup() -> BoxedStrategy<String> {
    let frag = select(vec![
        "\"", "\"\"", "\"a\"", "\"sch\"", "\"é\"", "\"1|2\"", "\"|\"", "\"12\"", " ", "\t", "\n", "\n", "\r\n", "//", "/*", "*/",
        "#include", "#include shared", "a=b", "ß=s", "=", "é=", "\"a\" \"1\" \"2\" \"3\"", "\"b\" \"\" \"\" \"7|8\"", "(a|b)",
        "[a+b]", "(a[any]|b)", "^a", "a$", "[^x]", "any", "+", "true", "false", "ab any true", "\u{0}", "中", "😀", "\\", "*",
        "/", "'", "\u{feff}", "\u{2028}", "\u{85}",
    ])
    .prop_map(String::from);
    vec(prop_oneof![10 => frag, 1 => any::<char>().prop_map(|c| c.to_string())], 0..24).prop_map(|v| v.concat()).boxed()
}

fn check_dm_soup((rules, text): &(String, String), obs: &mut Obs) -> CheckResult {
    for fold in [true, false] {
        match DaitchMokotoffSoundexBuilder::with_rules(rules).ascii_folding(fold).build() {
            Ok(e) => {
                let _ = (e.soundex(text), e.encode(text), e.inner_soundex(rules, false));
                obs.label("accepted");
            }
            Err(e) => {
                let _ = format!("{e} {e:?}");
                obs.label("refused");
            }
        }
    }
    obs.evals(2);
    obs.nontrivial_if(rules.contains('"') || rules.contains('='));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct CfgSoup {
    cfg: bm::GCfg,
    /// (file, position, removed bytes, inserted text)
    edits: Vec<(u16, u16, u8, String)>,
    text: String,
}

fn check_cfg_soup(c: &CfgSoup, obs: &mut Obs) -> CheckResult {
    let mut files: BTreeMap<String, String> = c.cfg.texts().into_iter().map(|(k, v)| (k, v.join("\n") + "\n")).collect();
    let names: Vec<String> = files.keys().cloned().collect();
    for (f, at, del, ins) in &c.edits {
        let name = &names[*f as usize % names.len()];
        let t = files.get_mut(name).map(|t| std::mem::take(t)).unwrap_or_default();
        let v: Vec<char> = t.chars().collect();
        let k = *at as usize % (v.len() + 1);
        let end = (k + *del as usize).min(v.len());
        let mut o: String = v[..k].iter().collect();
        o.push_str(ins);
        o.extend(&v[end..]);
        files.insert(name.clone(), o);
    }
    let d = bm::Scratch::new();
    for (n, t) in &files {
        d.write(n, t);
    }
    let r = ConfigFiles::new(&d.0);
    drop(d);
    match r {
        Ok(cfg) => {
            for nt in Nt::ALL {
                for rt in [Rt::Approx, Rt::Exact] {
                    let o = Opts { nt, rt, concat: true, max: 20 };
                    let _ = bm::encoder(&cfg, &o).encode(&c.text);
                }
            }
            obs.label("accepted");
        }
        Err(e) => {
            let _ = format!("{e} {e:?}");
            obs.label("refused");
        }
    }
    obs.evals(1);
    obs.nontrivial_if(!c.edits.is_empty());
    Ok(())
}

fn cfg_soup_case() -> BoxedStrategy<CfgSoup> {
    let edit = (any::<u16>(), any::<u16>(), prop_oneof![3 => Just(0u8), 2 => 1u8..6], prop_oneof![
        1 => Just(String::new()),
        4 => rule_soup().prop_map(|s| s.chars().take(30).collect::<String>()),
    ]);
    (bm::gcfg(), vec(edit, 0..4), bm::gtext())
        .prop_map(|(cfg, edits, text)| CfgSoup { cfg, edits, text })
        .boxed()
}

fn check_parsers(s: &String, obs: &mut Obs) -> CheckResult {
    let _ = s.parse::<NameType>().map_err(|e| e.to_string());
    let _ = NameType::try_from(std::ffi::OsString::from(s)).map_err(|e| e.to_string());
    let _ = (s.parse::<Soundex>().is_ok(), Soundex::try_from(s.as_str()).is_ok(), Soundex::try_from(s.clone()).is_ok());
    let _ = (s.parse::<RefinedSoundex>().is_ok(), RefinedSoundex::try_from(s.as_str()).is_ok());
    let c = CharSequence::from(s.as_str());
    let n = c.len();
    indexing(|| {
        let _ = (&c[..], &c[0..n], &c[n..], &c[..n + 3], &c[n + 1..], &c[n + 5..2]);
        let _ = (&c[..=n], &c[1..=usize::MAX], &c[..=usize::MAX], &c[..usize::MAX], &c[usize::MAX..], &c[usize::MAX..=0]);
    });
    let e = ParseError { line_number: n, filename: Some(s.clone()), line_content: s.clone(), description: s.clone() };
    let _ = PhoneticError::from(e).to_string();
    obs.evals(8);
    obs.nontrivial_if(s.chars().count() >= 2);
    Ok(())
}

// ---------------------------------------------------------------- stack

/// What must not take more stack for longer inputs.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum Deep {
    /// A text repeated, through every encoder but Beider-Morse
    Text(String, u16),
    /// A text repeated, through Beider-Morse
    Bm(Opts, String, u16),
    /// A text repeated, given to the Daitch-Mokotoff builder
    DmRules(String, u16),
    /// Rule files including one another in a chain, and the index of the language files in it
    Includes(u16),
    /// A text repeated as the file of languages, of detection, or of rules
    Cfg(u8, String, u16),
}

/// Stack for one case: many times what the calls need, and little for a recursion on a long input.
const STACK: usize = 96 << 10;

fn check_deep(c: &Deep, obs: &mut Obs) -> CheckResult {
    let run = || -> CheckResult {
        match c {
            Deep::Text(t, n) => {
                let t = t.repeat(*n as usize);
                run_light(&t);
            }
            Deep::Bm(o, t, n) => {
                let t = t.repeat(*n as usize) + "a";
                let e = bm::encoder(bm::embedded(), o);
                let _ = (e.encode(&t), e.encode_with_languages(&t, &LanguageSet::NoLanguages));
            }
            Deep::DmRules(t, n) => {
                let t = t.repeat(*n as usize);
                if let Ok(e) = DaitchMokotoffSoundexBuilder::with_rules(&t).build() {
                    let _ = e.soundex("abc");
                }
            }
            Deep::Includes(n) => {
                let mut files = bm::gcfg_empty().texts();
                for f in ["gen_rules_any", "ash_approx_common"] {
                    files.insert(f.into(), vec!["#include deep0".into()]);
                }
                for i in 0..*n {
                    let l = if i + 1 < *n { format!("#include deep{}", i + 1) } else { "\"a\" \"\" \"\" \"b\"".into() };
                    files.insert(format!("deep{i}"), vec![l]);
                }
                let d = bm::write_plain(&files);
                let cfg = ConfigFiles::new(&d.0);
                drop(d);
                ensure!(cfg.is_ok(), "a chain of {n} includes is refused: {:?}", cfg.err());
            }
            Deep::Cfg(k, t, n) => {
                let mut files = bm::gcfg_empty().texts();
                let f = ["gen_languages", "gen_lang", "gen_rules_any"][*k as usize % 3];
                files.insert(f.into(), vec![t.repeat(*n as usize)]);
                let d = bm::write_plain(&files);
                let cfg = ConfigFiles::new(&d.0);
                drop(d);
                if let Ok(cfg) = cfg {
                    let o = Opts { nt: Nt::Gen, rt: Rt::Approx, concat: true, max: 20 };
                    let _ = bm::encoder(&cfg, &o).encode("abc");
                }
            }
        }
        Ok(())
    };
    // built where there is room
    let _ = (bm::embedded(), bm::gcfg_empty());
    let r = std::thread::scope(|s| {
        match std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || catch(run).and_then(|r| r)) {
            Ok(h) => h.join().unwrap_or_else(|_| Err("the thread died".into())),
            Err(e) => Err(format!("INTERNAL panic: {e}")),
        }
    });
    obs.evals(1);
    obs.nontrivial();
    obs.label(match c {
        Deep::Text(..) => "texts",
        Deep::Bm(..) => "Beider-Morse texts",
        Deep::DmRules(..) => "Daitch-Mokotoff rules",
        Deep::Includes(_) => "include chains",
        Deep::Cfg(..) => "configuration files",
    });
    r
}

fn deep_case() -> BoxedStrategy<Deep> {
    let piece = || {
        prop_oneof![
            3 => any_text(),
            2 => gen::wild(4),
            2 => select(vec!["a", "ab", " ", "-", "'", "x", "é", "sch", "mac", "ss", "aa"]).prop_map(String::from),
        ]
    };
    let particles = select(vec![
        "d'", "de ", "van ", "von ", "de la ", "dela ", "d' ", "del-", "dos\t", "di ", "'", "d'd", "ben ", "bar ", "al ", "a ", "b-", "''",
    ]);
    let opts = (select(&Nt::ALL[..]), select(vec![Rt::Approx, Rt::Exact]), any::<bool>(), 1usize..3)
        .prop_map(|(nt, rt, concat, max)| Opts { nt, rt, concat, max });
    let rules = select(vec![
        "\"a\" \"0\" \"1\" \"\"\n", "//\n", "\n", "/* */\n", "/*\n*/\n", "a=b\n", "/*", "\"", " ", "\"a\" ", "(", "any\n", "ab any true\n",
        "\"a\" \"\" \"\" \"(a|b)\"\n", "a|", "((", "[", "#include deep\n", "\r\n", "//",
    ]);
    prop_oneof![
        3 => (piece(), 2_000u16..8_000).prop_map(|(t, n)| {
            let l = t.len().max(1);
            Deep::Text(t, (n as usize / l + 1) as u16)
        }),
        2 => (opts, particles, 200u16..420).prop_map(|(o, p, n)| {
            // the time taken is cubic in the length when words are joined
            let n = if o.concat { n.min(700 / p.len() as u16) } else { n };
            Deep::Bm(o, p.to_string(), n)
        }),
        2 => (rules.clone(), 1_000u16..20_000).prop_map(|(t, n)| Deep::DmRules(t.to_string(), n)),
        1 => (150u16..400).prop_map(Deep::Includes),
        2 => (0u8..3, rules, 1_000u16..20_000).prop_map(|(k, t, n)| Deep::Cfg(k, t.to_string(), n)),
    ]
    .boxed()
}

fn totality() -> Vec<Section> {
    vec![
        exhaustive(
            "unicode-sweep",
            "every Unicode scalar value alone and inside fixed surroundings, through every encoder but Beider-Morse (which gets it alone); non-trivial: not ASCII or two letters or more",
            |t| gen::SCALARS * if t == Tier::Quick { 3 } else { AROUND.len() as u64 },
            |i| {
                let (k, i) = (i / gen::SCALARS, i % gen::SCALARS);
                let (a, b) = AROUND[k as usize];
                format!("{a}{}{b}", gen::nth_char(i))
            },
            |s: &String, obs: &mut Obs| {
                run_light(s);
                obs.evals(30);
                if s.chars().count() == 1 {
                    run_slow(s);
                    obs.evals(5);
                }
                obs.nontrivial_if(!s.is_ascii() || letters(s) >= 2);
                Ok(())
            },
        ),
        random(
            "texts",
            "two texts (trigger strings of the algorithms, letters, punctuation, any Unicode), a length limit: every encoder and comparison returns; non-trivial: two letters or more, or not ASCII",
            250_000,
            6_000_000,
            |_| totality_case(),
            check_total,
        ),
        random(
            "long-texts",
            "a text repeated to 400 to 2500 characters; non-trivial: as above",
            3_000,
            100_000,
            |_| long_case(),
            check_total,
        ),
        random(
            "daitch-mokotoff-branching",
            "a text of at most 40 characters, with branching; non-trivial: as above",
            40_000,
            1_000_000,
            |_| totality_case(),
            total_dm,
        ),
        random(
            "beider-morse",
            "a text, options, the embedded or the commons-codec rules, optional languages, now and then unknown ones; non-trivial: as above",
            30_000,
            1_000_000,
            |_| bm_total_case(),
            check_bm_total,
        ),
        random(
            "rule-texts",
            "arbitrary texts made of fragments of the rule grammar given to the Daitch-Mokotoff builder; accepted ones encode; non-trivial: contains a quote or an equal sign",
            150_000,
            4_000_000,
            |_| (rule_soup(), prop_oneof![any_text(), rule_soup()]).boxed(),
            check_dm_soup,
        ),
        random(
            "config-files",
            "valid configurations with random edits in any file: loading answers, and accepted ones encode; non-trivial: edited",
            30_000,
            800_000,
            |_| cfg_soup_case(),
            check_cfg_soup,
        ),
        random(
            "little-stack",
            "a repeated text, particle or rule line, or a chain of including files, in a thread with 96 KB of stack: a recursion that grows with the input kills the process; non-trivial: always",
            400,
            10_000,
            |_| deep_case(),
            check_deep,
        ),
        random(
            "parsers",
            "any text given to the parsing constructors and slices; non-trivial: two characters or more",
            200_000,
            2_000_000,
            |_| prop_oneof![any_text(), gen::wild(40), select(vec!["ash", "gen", "sep", "gen_languages.txt"]).prop_map(String::from)].boxed(),
            check_parsers,
        ),
    ]
}

// ---------------------------------------------------------------- purity

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct History {
    /// texts related to one another
    texts: Vec<String>,
    /// (operation, text)
    steps: Vec<(u16, u8)>,
    /// false: one instance per operation for the whole history; true: a fresh one for each call
    fresh: bool,
    /// number of threads among which the steps are dealt
    threads: u8,
    full: bool,
}

/// Beider-Morse operations: always there, and more with the complete rules.
const BM: (usize, usize) = (34, 12);

/// Number of operations before the Beider-Morse ones.
fn light() -> usize {
    ops::light_table().len()
}

impl History {
    fn op_index(&self, k: u16) -> usize {
        let total = light() + BM.0 + if self.full { BM.1 } else { 0 };
        k as usize % total
    }
    fn needs_bm(&self) -> bool {
        self.steps.iter().any(|(k, _)| self.op_index(*k) >= light())
    }
    fn text(&self, t: u8) -> &str {
        &self.texts[t as usize % self.texts.len()]
    }
    /// The second text of a comparison.
    fn other(&self, t: u8) -> &str {
        &self.texts[(t as usize / self.texts.len()) % self.texts.len()]
    }
}

fn build_ops(h: &History) -> Vec<ops::Op> {
    if h.needs_bm() {
        ops::ops(bm::embedded(), if h.full { Some(bm::full()) } else { None })
    } else {
        ops::light_ops()
    }
}

/// Runs in a process of its own: the answers of the whole history.
pub fn play(h: &History) -> Vec<String> {
    let run_one = |ops: &Vec<ops::Op>, (k, t): (u16, u8)| -> String {
        let i = h.op_index(k);
        let (text, other) = (h.text(t), h.other(t));
        match catch(|| {
            if h.fresh {
                let ops = build_ops(h);
                (ops[i].run)(text, other)
            } else {
                (ops[i].run)(text, other)
            }
        }) {
            Ok(s) => s,
            Err(m) => format!("<{m}>"),
        }
    };
    if h.threads <= 1 {
        let ops = build_ops(h);
        return h.steps.iter().map(|s| run_one(&ops, *s)).collect();
    }
    let n = h.threads as usize;
    let barrier = std::sync::Barrier::new(n);
    let mut out = vec![String::new(); h.steps.len()];
    std::thread::scope(|scope| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let barrier = &barrier;
                let run_one = &run_one;
                scope.spawn(move || {
                    let ops = build_ops(h);
                    barrier.wait();
                    (t..h.steps.len()).step_by(n).map(|i| (i, run_one(&ops, h.steps[i]))).collect::<Vec<_>>()
                })
            })
            .collect();
        for h in hs {
            for (i, s) in h.join().unwrap_or_default() {
                out[i] = s;
            }
        }
    });
    out
}

/// `subject history`: a history as JSON on stdin, the answers as JSON on stdout. `subject stream`
/// does the same for a long row of calls, and answers with those the model does not expect.
pub fn subject(what: &str) -> ! {
    install_panic_hook();
    if what == "stream" {
        let Ok(s) = serde_json::from_reader::<_, Stream>(std::io::stdin().lock()) else { std::process::exit(2) };
        let _ = serde_json::to_writer(std::io::stdout().lock(), &s.play());
    } else {
        let Ok(h) = serde_json::from_reader::<_, History>(std::io::stdin().lock()) else { std::process::exit(2) };
        let out = play(&h);
        let _ = serde_json::to_writer(std::io::stdout().lock(), &out);
    }
    bm::remove_scratch(std::process::id());
    std::process::exit(0)
}

fn play_elsewhere(h: &History) -> Result<Vec<String>, String> {
    elsewhere("history", h)
}

/// Has a process which did nothing before do the calls of a case.
fn elsewhere<C: Serialize, A: serde::de::DeserializeOwned>(what: &str, case: &C) -> Result<A, String> {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().map_err(|e| format!("INTERNAL panic: {e}"))?;
    let mut child = Command::new(exe)
        .args(["subject", what])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("INTERNAL panic: {e}"))?;
    let json = serde_json::to_vec(case).map_err(|e| format!("INTERNAL panic: {e}"))?;
    let mut stdin = child.stdin.take().ok_or("INTERNAL panic: stdin")?;
    // the child reads everything before it writes
    let _ = stdin.write_all(&json);
    drop(stdin);
    let mut buf = vec![];
    if let Some(mut o) = child.stdout.take() {
        let _ = o.read_to_end(&mut buf);
    }
    let st = child.wait().map_err(|e| format!("INTERNAL panic: {e}"))?;
    if !st.success() {
        return Err(format!("the process running the history ended with {st}"));
    }
    serde_json::from_slice(&buf).map_err(|e| format!("INTERNAL panic: {e}"))
}

fn check_history(h: &History, obs: &mut Obs) -> CheckResult {
    if h.texts.is_empty() || h.steps.is_empty() {
        return Ok(());
    }
    let got = play_elsewhere(h)?;
    ensure!(got.len() == h.steps.len(), "INTERNAL panic: answers missing");
    thread_local! {
        static FULL_TABLE: &'static [ops::Op] = Box::leak(ops::ops(bm::embedded(), Some(bm::full())).into_boxed_slice());
        // a conformance defect is another property's concern: do not spend the run on it
        static SUSPECTS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    }
    let table: &[ops::Op] = if h.needs_bm() { FULL_TABLE.with(|t| *t) } else { ops::light_table() };
    ensure!(!h.needs_bm() || table.len() == light() + BM.0 + BM.1, "INTERNAL panic: number of operations");
    let mut seen: BTreeMap<(usize, &str, &str), &String> = BTreeMap::new();
    for ((k, t), g) in h.steps.iter().zip(&got) {
        let i = h.op_index(*k);
        let op = &table[i];
        let text = h.text(*t);
        let other = if op.two() { h.other(*t) } else { "" };
        if let Some(old) = seen.get(&(i, text, other)) {
            ensure!(*old == g, "{} of {text:?} {other:?} gave {old:?}, then {g:?} in the same history", op.name);
            continue;
        }
        seen.insert((i, text, other), g);
        let want = op.want(text, other);
        if &want == g || SUSPECTS.with(|s| s.get()) > 400 {
            continue;
        }
        // The only oracle is the same call alone in a process that did nothing else.
        let alone = History { texts: vec![text.to_string(), other.to_string()], steps: vec![(i as u16, 2)], fresh: false, threads: 1, full: h.full };
        let alone = play_elsewhere(&alone)?;
        ensure!(
            alone.first() == Some(g),
            "{} of {text:?} {other:?} gives {g:?} within this history and {:?} when it is the first call of a process",
            op.name,
            alone.first()
        );
        SUSPECTS.with(|s| s.set(s.get() + 1));
    }
    obs.evals(h.steps.len() as u64);
    obs.nontrivial_if(seen.len() >= 2 && h.texts.iter().any(|t| letters(t) >= 2));
    obs.label_if(h.threads > 1, "several threads");
    obs.label_if(h.needs_bm(), "with Beider-Morse");
    obs.label_if(seen.len() < h.steps.len(), "repeated calls");
    Ok(())
}

/// Many calls in one process: what counts calls, or remembers only so many texts, shows late.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Stream {
    /// operations (of those without Beider-Morse, unless `bm`), dealt in turn
    ops: Vec<u16>,
    texts: Vec<String>,
    /// true: no two calls of an operation get the same text; false: the texts come again and again
    distinct: bool,
    count: u32,
    threads: u8,
    bm: bool,
}

impl Stream {
    fn op_index(&self, i: u32) -> usize {
        let k = self.ops[i as usize % self.ops.len()] as usize;
        if self.bm {
            light() + k % BM.0
        } else {
            k % light()
        }
    }

    fn text(&self, i: u32) -> String {
        let i = i as usize / self.ops.len();
        let base = &self.texts[i % self.texts.len()];
        if !self.distinct {
            return base.clone();
        }
        let mut n = i / self.texts.len();
        let mut mark = String::new();
        while n > 0 {
            mark.push(char::from(b'A' + (n % 26) as u8));
            n /= 26;
        }
        if i % 2 == 0 {
            format!("{base}{mark}")
        } else {
            format!("{mark}{base}")
        }
    }

    fn texts_of(&self, i: u32, two: bool) -> (String, String) {
        (self.text(i), if two { self.text(i / 3) } else { String::new() })
    }

    /// The calls which did not answer what the model says, a few of them.
    fn play(&self) -> Vec<(u32, String)> {
        let n = u32::from(self.threads.max(1));
        let part = |t: u32| {
            let table = if self.bm { ops::ops(bm::embedded(), None) } else { ops::light_ops() };
            let mut bad = vec![];
            for i in (t..self.count).step_by(n as usize) {
                let op = &table[self.op_index(i)];
                let (a, b) = self.texts_of(i, op.two());
                let got = catch(|| (op.run)(&a, &b)).unwrap_or_else(|m| format!("<{m}>"));
                if got != op.want(&a, &b) {
                    bad.push((i, got));
                    if bad.len() >= 30 {
                        break;
                    }
                }
            }
            bad
        };
        if n == 1 {
            return part(0);
        }
        std::thread::scope(|scope| {
            let hs: Vec<_> = (0..n).map(|t| scope.spawn(move || part(t))).collect();
            hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
        })
    }
}

fn check_stream(s: &Stream, obs: &mut Obs) -> CheckResult {
    if s.texts.is_empty() || s.ops.is_empty() || s.count > 1_000_000 {
        return Ok(());
    }
    thread_local! {
        static SUSPECTS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
        static TABLE: &'static [ops::Op] = Box::leak(ops::ops(bm::embedded(), None).into_boxed_slice());
    }
    let bad: Vec<(u32, String)> = elsewhere("stream", s)?;
    for (i, g) in bad {
        if SUSPECTS.with(|s| s.get()) > 200 {
            break;
        }
        let k = s.op_index(i);
        let op = TABLE.with(|t| &t[k]);
        let (text, other) = s.texts_of(i, op.two());
        let alone = History { texts: vec![text.clone(), other.clone()], steps: vec![(k as u16, 2)], fresh: false, threads: 1, full: false };
        let alone = play_elsewhere(&alone)?;
        ensure!(
            alone.first() == Some(&g),
            "{} of {text:?} {other:?} gives {g:?} as call {i} of a process and {:?} when it is the first call of one",
            op.name,
            alone.first()
        );
        SUSPECTS.with(|s| s.set(s.get() + 1));
    }
    obs.evals(u64::from(s.count));
    obs.nontrivial_if(s.count > 256 && s.texts.iter().any(|t| letters(t) >= 2));
    obs.label_if(s.count > 65_536, "more than 65536 calls");
    obs.label_if(s.threads > 1, "several threads");
    obs.label_if(s.distinct, "texts all different");
    obs.label_if(s.bm, "with Beider-Morse");
    Ok(())
}

fn stream() -> BoxedStrategy<Stream> {
    let families: Vec<&'static str> = ops::FAMILIES.iter().copied().filter(|f| !f.starts_with("bm")).collect();
    let threads = || prop_oneof![3 => Just(1u8), 1 => 2u8..4];
    let light = select(families).prop_flat_map(move |f| {
        let indices: Vec<u16> = (0u16..).zip(ops::light_table()).filter(|(_, o)| o.family == f).map(|(i, _)| i).collect();
        let text = gen::words(ops::family_tokens(f), 5);
        (
            vec(select(indices), 1..4),
            vec(text, 1..12),
            any::<bool>(),
            prop_oneof![12 => 300u32..3_000, 3 => 4_000u32..20_000, 2 => 66_000u32..70_000],
            threads(),
        )
            .prop_map(|(ops, texts, distinct, count, threads)| Stream { ops, texts, distinct, count, threads, bm: false })
    });
    let bm = (
        vec(any::<u16>(), 1..3),
        vec(bm::any_text(Nt::Gen).prop_map(|s| s.chars().take(8).collect::<String>()), 1..12),
        any::<bool>(),
        200u32..500,
        threads(),
    )
        .prop_map(|(ops, texts, distinct, count, threads)| Stream { ops, texts, distinct, count, threads, bm: true });
    prop_oneof![16 => light, 1 => bm].boxed()
}

fn related_texts(base: BoxedStrategy<String>) -> BoxedStrategy<Vec<String>> {
    base.prop_flat_map(|b| {
        let b2 = b.clone();
        (vec(variant(b.clone()), 1..6), vec(any_text(), 0..2)).prop_map(move |(v, o)| {
            let mut r = vec![b2.clone()];
            r.extend(v);
            r.extend(o);
            r
        })
    })
    .boxed()
}

fn history() -> BoxedStrategy<History> {
    // operations of one algorithm (its settings differ), or of all of them
    let families: Vec<&'static str> = ops::FAMILIES.iter().copied().filter(|f| !f.starts_with("bm")).collect();
    let long = |s: BoxedStrategy<String>| -> BoxedStrategy<String> {
        let length = prop_oneof![8 => Just(40usize), 1 => 40usize..300, 1 => 300usize..1200, 1 => 1200usize..2500];
        prop_oneof![4 => s.clone(), 1 => (s.clone(), s, length).prop_map(|(a, b, n)| {
            let a: String = a.chars().cycle().take(if a.is_empty() { 0 } else { n }).collect();
            format!("{a}{b}")
        })].boxed()
    };
    let of_family = select(families).prop_flat_map(move |f| {
        let indices: Vec<u16> = (0u16..).zip(ops::light_table()).filter(|(_, o)| o.family == f).map(|(i, _)| i).collect();
        (
            related_texts(long(ops::family_text(f))),
            vec((select(indices), any::<u8>()), 2..14),
            any::<bool>(),
            prop_oneof![3 => Just(1u8), 1 => 2u8..5],
        )
            .prop_map(|(texts, steps, fresh, threads)| History { texts, steps, fresh, threads, full: false })
    });
    let mixed = (
        related_texts(long(any_text())),
        vec(((0..light() as u16), any::<u8>()), 2..40),
        any::<bool>(),
        prop_oneof![3 => Just(1u8), 1 => 2u8..5],
    )
        .prop_map(|(texts, steps, fresh, threads)| History { texts, steps, fresh, threads, full: false });
    let bm = (
        prop_oneof![12 => Just(false), 1 => Just(true)],
        prop_oneof![4 => related_texts(bm::any_text(Nt::Gen)), 1 => related_texts(bm::any_text(Nt::Sep)), 1 => related_texts(bm::any_text(Nt::Ash))],
        vec((any::<u16>(), any::<u8>()), 2..14),
        prop_oneof![3 => Just(1u8), 1 => 2u8..4],
    )
        .prop_map(|(full, texts, steps, threads)| {
            let n = (BM.0 + if full { BM.1 } else { 0 }) as u16;
            let steps = steps.into_iter().map(|(k, t)| (light() as u16 + k % n, t)).collect();
            History { texts, steps, fresh: false, threads, full }
        });
    prop_oneof![6 => of_family, 1 => mixed, 2 => bm].boxed()
}

/// Whether a type can be shared between threads, decided without requiring it.
macro_rules! shareable {
    ($t:ty) => {{
        struct Probe<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            const YES: bool = false;
        }
        impl<T> No for Probe<T> {}
        #[allow(dead_code)]
        impl<T: Send + Sync> Probe<T> {
            const YES: bool = true;
        }
        <Probe<$t>>::YES
    }};
}

struct Share<T>(T);
// Only used for types found shareable by `shareable!`.
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Shared {
    kind: u8,
    texts: Vec<String>,
    threads: u8,
    o: Opts,
}

fn hammer<E: Encoder>(e: E, same: impl Fn(&E) -> E, sync: bool, what: &str, c: &Shared, obs: &mut Obs) -> CheckResult {
    ensure!(sync, "{what} cannot be shared between threads");
    let alone: Vec<String> = c.texts.iter().map(|t| same(&e).encode(t)).collect();
    let shared = Share(&e);
    let n = c.threads as usize;
    let barrier = std::sync::Barrier::new(n);
    let texts = &c.texts;
    let bad: Vec<Option<String>> = std::thread::scope(|scope| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (shared, barrier, alone) = (&shared, &barrier, &alone);
                scope.spawn(move || {
                    barrier.wait();
                    catch(|| {
                        let e: &E = { shared }.0;
                        for k in 0..texts.len() * 3 {
                            let i = (k + t) % texts.len();
                            let g = e.encode(&texts[i]);
                            if g != alone[i] {
                                return Some(format!("{:?} gives {g:?} on a shared instance, {:?} on a clone used once", texts[i], alone[i]));
                            }
                        }
                        None
                    })
                    .unwrap_or_else(Some)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("thread panicked".into()))).collect()
    });
    obs.evals((n * texts.len() * 3) as u64);
    obs.label_if(n > 2, "three threads or more");
    match bad.into_iter().flatten().next() {
        Some(m) => Err(format!("{what}: {m}")),
        None => Ok(()),
    }
}

fn check_shared(c: &Shared, obs: &mut Obs) -> CheckResult {
    if c.texts.is_empty() || c.threads == 0 {
        return Ok(());
    }
    obs.nontrivial_if(c.texts.len() >= 2 && c.texts.iter().any(|t| letters(t) >= 2));
    macro_rules! go {
        ($t:ty, $e:expr) => {
            hammer::<$t>($e, |e| e.clone(), shareable!($t), stringify!($t), c, obs)
        };
    }
    match c.kind % 13 {
        0 => go!(Soundex, Soundex::default()),
        1 => go!(RefinedSoundex, RefinedSoundex::default()),
        2 => go!(Metaphone, Metaphone::new(None)),
        3 => go!(DoubleMetaphone, DoubleMetaphone::new(None)),
        4 => go!(Caverphone1, Caverphone1),
        5 => go!(Caverphone2, Caverphone2),
        6 => go!(Cologne, Cologne),
        7 => go!(Nysiis, Nysiis::default()),
        8 => go!(Phonex, Phonex::default()),
        9 => go!(MatchRatingApproach, MatchRatingApproach),
        10 => go!(DaitchMokotoffSoundex, DaitchMokotoffSoundex::default()),
        11 => {
            let ok = shareable!(ConfigFiles) && shareable!(BeiderMorseBuilder<'static>);
            ensure!(ok, "the Beider-Morse configuration cannot be shared between threads");
            go!(BeiderMorse<'static>, bm::encoder(bm::embedded(), &c.o))
        }
        _ => go!(BeiderMorse<'static>, bm::encoder(bm::full(), &c.o)),
    }
}

fn shared_case() -> BoxedStrategy<Shared> {
    let kinds: Vec<u8> = (0..13).collect();
    (select(kinds), 2u8..5, bm::opts())
        .prop_flat_map(|(kind, threads, mut o)| {
            o.max = o.max.min(30);
            let f = match kind {
                0 => "soundex",
                1 => "refined-soundex",
                2 => "metaphone",
                3 => "double-metaphone",
                4 | 5 => "caverphone",
                6 => "cologne",
                7 => "nysiis",
                8 => "phonex",
                9 => "match-rating",
                10 => "daitch-mokotoff",
                _ => "bm-embedded",
            };
            related_texts(ops::family_text(f)).prop_map(move |texts| Shared { kind, texts, threads, o: o.clone() })
        })
        .boxed()
}

fn purity() -> Vec<Section> {
    vec![
        random(
            "histories",
            "a history of calls (several settings of one algorithm, or all algorithms) on related texts in a fresh process, on one instance or a new one per call, on 1 to 4 threads; each answer is the one the call gives alone; non-trivial: two different calls or more and a text with two letters",
            30_000,
            600_000,
            |_| history(),
            check_history,
        ),
        random(
            "long-histories",
            "300 to 70,000 calls in a fresh process, on texts that come again or are all different, on 1 to 3 threads; each answer is the one the call gives alone; non-trivial: more than 256 calls and a text with two letters",
            800,
            12_000,
            |_| stream(),
            check_stream,
        ),
        random(
            "shared-instances",
            "one instance used by 2 to 4 threads at once on related texts, against clones used once; non-trivial: two texts or more",
            30_000,
            800_000,
            |_| shared_case(),
            check_shared,
        ),
    ]
}

// ---------------------------------------------------------------- comparisons

fn pair(f: &'static str) -> BoxedStrategy<(String, String)> {
    let t = ops::family_text(f);
    prop_oneof![
        4 => t.clone().prop_flat_map(|a| variant(a.clone()).prop_map(move |b| (a.clone(), b))),
        1 => t.clone().prop_flat_map(|a| variant(a.clone()).prop_flat_map(variant).prop_map(move |b| (a.clone(), b))),
        2 => (t.clone(), t),
        2 => (gen::words(&["A", "B", "K", "T"], 3), gen::words(&["A", "B", "P", "G", "D"], 3)),
    ]
    .boxed()
}

fn check_equals((f, a, b): &(u8, String, String), obs: &mut Obs) -> CheckResult {
    let family = ops::FAMILIES[*f as usize % ops::FAMILIES.len()];
    for (fam, name, e) in ops::encoders().iter().filter(|(x, ..)| x == &family) {
        let _ = fam;
        let (x, y) = (e.encode(a), e.encode(b));
        ensure_eq!(e.is_encoded_equals(a, b), x == y, "{name}: {a:?} (code {x:?}) and {b:?} (code {y:?}) compared");
        ensure_eq!(e.is_encoded_equals(b, a), x == y, "{name}: {b:?} (code {y:?}) and {a:?} (code {x:?}) compared");
        ensure!(e.is_encoded_equals(a, a), "{name}: {a:?} is not equal to itself");
        obs.evals(3);
        obs.label_if(x == y && a != b, "different texts, same code");
        obs.label_if(x != y, "different codes");
        obs.nontrivial_if(a != b && !x.is_empty());
    }
    Ok(())
}

fn check_difference((a, b): &(String, String), obs: &mut Obs) -> CheckResult {
    let same = |x: &str, y: &str| -> usize {
        let (x, y): (Vec<char>, Vec<char>) = (x.chars().collect(), y.chars().collect());
        (0..x.len().min(y.len())).filter(|i| x[*i] == y[*i]).count()
    };
    fn each<S: SoundexCommons>(s: S, what: &str, a: &str, b: &str, same: &dyn Fn(&str, &str) -> usize) -> CheckResult {
        let (x, y) = (s.encode(a), s.encode(b));
        let d = s.difference(a, b);
        ensure_eq!(d, same(&x, &y), "{what}: difference of {a:?} (code {x:?}) and {b:?} (code {y:?})");
        ensure_eq!(s.difference(b, a), d, "{what}: difference of {b:?} and {a:?} against the other way round");
        ensure_eq!(s.difference(a, a), x.chars().count(), "{what}: difference of {a:?} with itself");
        Ok(())
    }
    each(Soundex::default(), "Soundex", a, b, &same)?;
    each(Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX), "Soundex genealogy", a, b, &same)?;
    each(RefinedSoundex::default(), "RefinedSoundex", a, b, &same)?;
    obs.evals(9);
    obs.nontrivial_if(letters(a) >= 2 && letters(b) >= 2);
    Ok(())
}

fn check_dm_equal((l, a, b): &(u8, String, String), obs: &mut Obs) -> CheckResult {
    let d = DoubleMetaphone::new(ops::LIMITS[*l as usize % ops::LIMITS.len()]);
    let (x, y) = (d.double_metaphone(a), d.double_metaphone(b));
    for (u, v, r, s) in [(a, b, &x, &y), (b, a, &y, &x)] {
        ensure_eq!(d.is_double_metaphone_equal(u, v, false), r.primary() == s.primary(), "primary codes of {u:?} and {v:?}");
        ensure_eq!(d.is_double_metaphone_equal(u, v, true), r.alternate() == s.alternate(), "alternate codes of {u:?} and {v:?}");
    }
    ensure_eq!(d.encode(a), x.primary(), "encode of {a:?} against the primary code");
    ensure_eq!(d.encode_alternate(a), x.alternate(), "encode_alternate of {a:?} against the alternate code");
    obs.evals(6);
    obs.nontrivial_if(letters(a) >= 2 && letters(b) >= 2);
    obs.label_if((x.primary() == y.primary()) != (x.alternate() == y.alternate()), "primary and alternate disagree");
    Ok(())
}

fn check_mra((a, b): &(String, String), obs: &mut Obs) -> CheckResult {
    let m = MatchRatingApproach;
    let r = m.is_encoded_equals(a, b);
    ensure_eq!(m.is_encoded_equals(b, a), r, "match rating of {b:?} and {a:?} against the other way round");
    let (x, y) = (m.encode(a), m.encode(b));
    let comparable = a.trim().chars().count() > 1 && b.trim().chars().count() > 1;
    if !comparable {
        ensure!(!r, "{a:?} and {b:?} match although one has no more than one character");
    } else if x == y {
        ensure!(r, "{a:?} and {b:?} have the same code {x:?} and do not match");
    }
    let (n, k) = (x.chars().count(), y.chars().count());
    if a != b && n.abs_diff(k) >= 3 {
        ensure!(!r, "{a:?} (code {x:?}) and {b:?} (code {y:?}) match although the lengths differ by three or more");
    }
    obs.evals(2);
    obs.nontrivial_if(a != b && comparable);
    obs.label_if(r, "match");
    Ok(())
}

/// Long texts which are the same as far as the end, the middle or the start, or are not related.
fn long_pair(f: &'static str) -> BoxedStrategy<(String, String)> {
    let piece = || ops::family_text(f);
    let t = || prop_oneof![6 => gen::lengthy(piece(), 700), 1 => gen::very_long(piece(), 3000)];
    prop_oneof![
        2 => t().prop_flat_map(|a| variant(a.clone()).prop_map(move |b| (a.clone(), b))),
        2 => (t(), piece(), piece()).prop_map(|(a, x, y)| (format!("{a}{x}"), format!("{a}{y}"))),
        1 => (t(), piece()).prop_map(|(a, x)| { let b = format!("{a}{x}"); (a, b) }),
        1 => (t(), piece(), piece()).prop_map(|(a, x, y)| (format!("{x}{a}"), format!("{y}{a}"))),
        1 => (t(), any::<prop::sample::Index>()).prop_map(|(a, i)| {
            let n = a.chars().count();
            let b = if n == 0 { String::new() } else { a.chars().take(i.index(n)).collect() };
            (a, b)
        }),
        1 => (t(), t()),
    ]
    .boxed()
}

fn comparisons() -> Vec<Section> {
    vec![
        random(
            "long-texts",
            "an algorithm (all its settings) and two related texts of 20 to 3,000 characters: equal if and only if the codes are, both ways; non-trivial: different texts and a non-empty code",
            10_000,
            300_000,
            |_| {
                let fs: Vec<u8> = (0..ops::FAMILIES.len() as u8).filter(|i| ops::FAMILIES[*i as usize] != "match-rating" && !ops::FAMILIES[*i as usize].starts_with("bm")).collect();
                select(fs).prop_flat_map(|f| long_pair(ops::FAMILIES[f as usize]).prop_map(move |(a, b)| (f, a, b))).boxed()
            },
            check_equals,
        ),
        random(
            "long-difference",
            "two texts of 20 to 3,000 characters: number of equal positions, symmetric, the code length for a text and itself; non-trivial: two letters or more in each",
            8_000,
            200_000,
            |_| prop_oneof![1 => long_pair("soundex"), 4 => long_pair("refined-soundex")].boxed(),
            check_difference,
        ),
        random(
            "long-match-rating",
            "two names of 20 to 3,000 characters, as below",
            8_000,
            200_000,
            |_| long_pair("match-rating"),
            check_mra,
        ),
        random(
            "encoded-equals",
            "an algorithm (all its settings) and two related texts: equal if and only if the codes are, both ways; non-trivial: different texts and a non-empty code",
            400_000,
            8_000_000,
            |_| {
                // Match Rating has its own comparison
                let fs: Vec<u8> = (0..ops::FAMILIES.len() as u8).filter(|i| ops::FAMILIES[*i as usize] != "match-rating").collect();
                select(fs).prop_flat_map(|f| pair(ops::FAMILIES[f as usize]).prop_map(move |(a, b)| (f, a, b))).boxed()
            },
            check_equals,
        ),
        random(
            "difference",
            "two texts: number of equal positions, symmetric, the code length for a text and itself; non-trivial: two letters or more in each",
            400_000,
            8_000_000,
            |_| prop_oneof![pair("soundex"), pair("refined-soundex")].boxed(),
            check_difference,
        ),
        random(
            "double-metaphone-equal",
            "a limit and two texts: equality of primary and of alternate codes; non-trivial: as above",
            300_000,
            6_000_000,
            |_| (any::<u8>(), pair("double-metaphone")).prop_map(|(l, (a, b))| (l, a, b)).boxed(),
            check_dm_equal,
        ),
        random(
            "match-rating",
            "two names: symmetric, true for the same code, false for one character or for code lengths three apart; non-trivial: different names of two characters or more",
            400_000,
            8_000_000,
            |_| prop_oneof![2 => enc::mra_pair(), 1 => pair("match-rating")].boxed(),
            check_mra,
        ),
    ]
}

// ---------------------------------------------------------------- formats

/// first character, then only characters of `rest`
fn shape(code: &str, first: &dyn Fn(char) -> bool, rest: &str) -> bool {
    let mut it = code.chars();
    it.next().map_or(true, first) && it.all(|c| rest.contains(c))
}

fn check_formats((f, text): &(u8, String), obs: &mut Obs) -> CheckResult {
    let latin = text.chars().filter(|c| c.is_alphabetic()).all(|c| c.is_ascii());
    let first_letter = text.chars().find(|c| c.is_alphabetic()).map(|c| c.to_ascii_uppercase());
    let has_letter = first_letter.is_some();
    // what Soundex sees: basic Latin letters once in upper case
    let first_az = text.chars().filter(|c| c.is_alphabetic()).flat_map(char::to_uppercase).find(char::is_ascii_uppercase);
    let family = ops::FAMILIES[*f as usize % ops::FAMILIES.len()];
    let mut some = false;
    for (_, name, e) in ops::encoders().iter().filter(|(x, ..)| x == &family) {
        let code = e.encode(text);
        let n = code.chars().count();
        some |= !code.is_empty();
        let bad = |why: &str| Err(format!("{name}: code {code:?} of {text:?}: {why}"));
        obs.eval();
        match family {
            "soundex" => {
                ensure_eq!(n, if first_az.is_some() { 4 } else { 0 }, "{name}: length of the code {code:?} of {text:?}");
                if !shape(&code, &|c| Some(c) == first_az, "0123456") {
                    return bad("not the first letter and three digits 0 to 6");
                }
                if code.chars().skip_while(|c| *c != '0').any(|c| c != '0') {
                    return bad("a zero is followed by something else");
                }
            }
            "refined-soundex" => {
                ensure!((n > 0) == first_az.is_some(), "{name}: code {code:?} of {text:?}: empty if and only if there is no letter");
                if !shape(&code, &|c| Some(c) == first_az, "0123456789") {
                    return bad("not the first letter followed by digits");
                }
                if code.chars().skip(1).zip(code.chars().skip(2)).any(|(a, b)| a == b) {
                    return bad("repeated digit");
                }
            }
            "metaphone" => {
                if text.is_ascii() && text.len() > 1 && !shape(&code, &|c| "AEIOU0BFHJKLMNPRSTWXY".contains(c), "0BFHJKLMNPRSTWXY") {
                    return bad("not a metaphone code");
                }
            }
            "double-metaphone" => {
                if text.is_ascii() && !shape(&code, &|c| "A0BFHJKLMNPRSTX".contains(c), "0BFHJKLMNPRSTXK") {
                    return bad("not a double metaphone code");
                }
            }
            "caverphone" => {
                ensure_eq!(n, if name == "Caverphone1" { 6 } else { 10 }, "{name}: length of the code {code:?} of {text:?}");
                if !shape(code.trim_end_matches('1'), &|c| c.is_ascii_uppercase(), "ABCDEFGHIJKLMNOPQRSTUVWXYZ") {
                    return bad("not uppercase letters padded with 1");
                }
            }
            "cologne" => {
                if !shape(&code, &|c| ('0'..='8').contains(&c), "12345678") {
                    return bad("not digits 0 to 8 with 0 only in front");
                }
            }
            "nysiis" => {
                if name.ends_with("strict") {
                    ensure!(n <= 6, "{name}: code {code:?} of {text:?} longer than 6");
                }
                ensure!(n == 0 || has_letter, "{name}: code {code:?} of {text:?}, which has no letter");
                if latin && !code.chars().all(|c| c.is_ascii_uppercase()) {
                    return bad("not uppercase letters");
                }
                if code.chars().skip(1).zip(code.chars().skip(2)).any(|(a, b)| a == b && a != 'Y') {
                    return bad("repeated letter");
                }
            }
            "phonex" => {
                let want: usize = name.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                ensure!(n == want || n == 0, "{name}: code {code:?} of {text:?} has not the configured length");
                if latin && !shape(&code, &|c| c.is_ascii_uppercase() || c == '0', "0123456") {
                    return bad("not a letter followed by digits 0 to 6");
                }
            }
            "match-rating" => {
                ensure!(n <= 6, "{name}: code {code:?} of {text:?} longer than 6");
                // accented or not
                let latin = text.chars().filter(|c| c.is_alphabetic()).all(|c| c <= '\u{24f}' || ('\u{1e00}'..='\u{1eff}').contains(&c));
                if latin && code.chars().skip(1).any(|c| "AEIOU".contains(c)) {
                    return bad("a vowel after the first character");
                }
                if code.chars().any(|c| c.is_ascii_lowercase() || " -&'.,".contains(c)) {
                    return bad("lower case or ignored character");
                }
            }
            "daitch-mokotoff" => {
                ensure!(n == 6 && code.chars().all(|c| c.is_ascii_digit()), "{name}: code {code:?} of {text:?} is not six digits");
            }
            _ => {}
        }
    }
    if family == "daitch-mokotoff" {
        for fold in [true, false] {
            let Ok(e) = DaitchMokotoffSoundexBuilder::default().ascii_folding(fold).build() else {
                return Err("the embedded rules are refused".into());
            };
            let all = e.inner_soundex(text, true);
            ensure!(!all.is_empty(), "no code for {text:?}");
            let set: BTreeSet<&String> = all.iter().collect();
            ensure!(set.len() == all.len(), "the same code several times for {text:?}: {all:?}");
            for c in &all {
                ensure!(c.len() == 6 && c.bytes().all(|b| b.is_ascii_digit()), "code {c:?} of {text:?} is not six digits");
            }
            ensure_eq!(e.soundex(text), all.join("|"), "branching codes of {text:?} as a text");
            ensure_eq!(e.encode(text), all[0], "the single code of {text:?} against the first of {all:?}");
            ensure_eq!(e.inner_soundex(text, false), vec![all[0].clone()], "codes of {text:?} without branching");
            obs.evals(4);
            obs.label_if(all.len() > 1, "branching");
        }
    }
    obs.nontrivial_if(some && letters(text) >= 2);
    obs.label(family);
    obs.label_if(!latin, "non-Latin letters");
    Ok(())
}

fn formats() -> Vec<Section> {
    let fs: Vec<u8> = (0..ops::FAMILIES.len() as u8).filter(|i| !ops::FAMILIES[*i as usize].starts_with("bm")).collect();
    let fs: &'static [u8] = Box::leak(fs.into_boxed_slice());
    vec![
        random(
            "codes",
            "an algorithm (all its settings) and a text: alphabet, length, first character and repetition of its code; non-trivial: two letters or more and a non-empty code",
            2_500_000,
            40_000_000,
            move |_| {
                select(fs)
                    .prop_flat_map(|f| {
                        let fam = ops::FAMILIES[f as usize];
                        prop_oneof![6 => ops::family_text(fam), 1 => any_text(), 1 => gen::wild(14)].prop_map(move |t| (f, suited(fam, t)))
                    })
                    .boxed()
            },
            check_formats,
        ),
        random(
            "long-texts",
            "the same for texts of 20 to 3,000 characters; non-trivial: as above",
            10_000,
            300_000,
            move |_| {
                select(fs)
                    .prop_flat_map(|f| {
                        let fam = ops::FAMILIES[f as usize];
                        prop_oneof![6 => gen::lengthy(ops::family_text(fam), 700), 1 => gen::very_long(ops::family_text(fam), 3000)].prop_map(move |t| (f, suited(fam, t)))
                    })
                    .boxed()
            },
            check_formats,
        ),
    ]
}

// ---------------------------------------------------------------- invariances

/// Characters an algorithm does not see, wherever they stand.
fn invisible(family: &str) -> &'static [&'static str] {
    match family {
        "soundex" | "refined-soundex" | "nysiis" | "phonex" => &[
            " ", "  ", "-", "'", ".", ",", "0", "7", "_", "&", "\t", "\n", "(", "|", "’", "–", "😀", "½", "\u{200B}", "\u{301}", "\u{0}",
        ],
        "caverphone" => &[
            " ", "-", "'", ".", "0", "7", "1", "2", "3", "\t", "\n", "|", "’", "é", "Ж", "ß", "中", "😀", "\u{200B}", "ü", "\u{0}",
        ],
        "match-rating" => &[" ", "  ", "-", "'", ".", ",", "&", "\t", "\n", "\u{a0}", "\u{3000}"],
        "daitch-mokotoff" => &[" ", "  ", "\t", "\n", "\u{a0}", "\u{3000}", "\u{2028}"],
        _ => &[],
    }
}

/// Characters an algorithm does not see around the text.
fn invisible_around(family: &str) -> &'static [&'static str] {
    match family {
        "double-metaphone" | "bm-embedded" => &[" ", "  ", "\t", "\n", "\u{a0}", "\u{3000}"],
        "cologne" => &[" ", "-", "'", ".", "7", "\t", "\n", "|", "’", "é", "Ж", "中", "😀"],
        f => invisible(f),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Invariance {
    family: u8,
    text: String,
    mode: u8,
    mask: u64,
    /// (position, character)
    inserted: Vec<(u16, u8)>,
    before: Vec<u8>,
    after: Vec<u8>,
}

/// Lower and upper case forms which map to each other one to one.
fn swap_case(c: char) -> char {
    // the lower case of a sigma depends on its neighbours
    if "Σσς".contains(c) {
        return c;
    }
    let one = |mut it: Box<dyn Iterator<Item = char>>| -> Option<char> {
        let c = it.next();
        if it.next().is_some() {
            None
        } else {
            c
        }
    };
    let (Some(u), Some(l)) = (one(Box::new(c.to_uppercase())), one(Box::new(c.to_lowercase()))) else { return c };
    let back = one(Box::new(u.to_lowercase())) == Some(l) && one(Box::new(l.to_uppercase())) == Some(u);
    if !back || (c != u && c != l) {
        return c;
    }
    if c == u {
        l
    } else {
        u
    }
}

fn recase_unicode(s: &str, mode: u8, mask: u64) -> String {
    match mode % 4 {
        0 => s.chars().map(|c| if c.is_lowercase() { swap_case(c) } else { c }).collect(),
        1 => s.chars().map(|c| if c.is_uppercase() { swap_case(c) } else { c }).collect(),
        2 => s.chars().map(swap_case).collect(),
        _ => s.chars().enumerate().map(|(i, c)| if mask >> (i % 64) & 1 == 1 { swap_case(c) } else { c }).collect(),
    }
}

fn check_invariance(c: &Invariance, obs: &mut Obs) -> CheckResult {
    let family = ops::FAMILIES[c.family as usize % ops::FAMILIES.len()];
    if family == "match-rating" && c.text.trim().chars().count() <= 1 {
        // a name of one character has no code, whatever it is
        return Ok(());
    }
    let cased = recase_unicode(&c.text, c.mode, c.mask);
    let mut chars: Vec<String> = c.text.chars().map(|c| c.to_string()).collect();
    let inv = invisible(family);
    for (at, k) in &c.inserted {
        if !inv.is_empty() {
            let k = inv[*k as usize % inv.len()];
            chars.insert(*at as usize % (chars.len() + 1), k.to_string());
        }
    }
    let spread = chars.concat();
    let inv = invisible_around(family);
    let pick = |v: &[u8]| -> String {
        if inv.is_empty() {
            String::new()
        } else {
            v.iter().map(|k| inv[*k as usize % inv.len()]).collect()
        }
    };
    let around = format!("{}{}{}", pick(&c.before), c.text, pick(&c.after));
    let both = recase_unicode(&spread, c.mode, c.mask);
    for (_, name, e) in ops::encoders().iter().filter(|(x, ..)| x == &family) {
        let code = e.encode(&c.text);
        for (what, t) in [
            ("another casing", &cased),
            ("characters the algorithm ignores added", &spread),
            ("characters the algorithm ignores added around", &around),
            ("another casing and ignored characters", &both),
        ] {
            if t != &c.text {
                let got = e.encode(t);
                ensure!(got == code, "{name}: {t:?} ({what}) gives {got:?}, {:?} gives {code:?}", c.text);
                obs.eval();
                obs.nontrivial_if(letters(&c.text) >= 2);
            }
        }
    }
    obs.label(family);
    obs.label_if(cased != c.text, "casing changed");
    obs.label_if(spread != c.text, "ignored characters inside");
    obs.label_if(around != c.text, "ignored characters around");
    Ok(())
}

fn invariance_case() -> BoxedStrategy<Invariance> {
    let fs: Vec<u8> = (0..ops::FAMILIES.len() as u8).collect();
    // Beider-Morse is the slow one
    let fs: Vec<u8> = fs.iter().flat_map(|f| vec![*f; if ops::FAMILIES[*f as usize].starts_with("bm") { 1 } else { 2 }]).collect();
    select(fs)
        .prop_flat_map(|f| {
            let fam = ops::FAMILIES[f as usize];
            (
                prop_oneof![8 => ops::family_text(fam), 1 => any_text()],
                any::<u8>(),
                any::<u64>(),
                vec((any::<u16>(), any::<u8>()), 0..4),
                vec(any::<u8>(), 0..3),
                vec(any::<u8>(), 0..3),
            )
                .prop_map(move |(text, mode, mask, inserted, before, after)| Invariance {
                    family: f,
                    text: suited(fam, text),
                    mode,
                    mask,
                    inserted,
                    before,
                    after,
                })
        })
        .boxed()
}

/// Long texts, many ignored characters.
fn long_invariance_case() -> BoxedStrategy<Invariance> {
    let fs: Vec<u8> = (0..ops::FAMILIES.len() as u8).filter(|f| !ops::FAMILIES[*f as usize].starts_with("bm")).collect();
    let few = || prop_oneof![3 => vec(any::<u8>(), 0..4), 1 => vec(any::<u8>(), 4..80), 1 => (any::<u8>(), 4usize..300).prop_map(|(k, n)| vec![k; n])];
    let inside = prop_oneof![
        1 => vec((any::<u16>(), any::<u8>()), 0..10),
        2 => vec((any::<u16>(), any::<u8>()), 10..100),
        1 => (any::<u16>(), any::<u8>(), 4usize..300).prop_map(|(at, k, n)| vec![(at, k); n]),
    ];
    (select(fs), inside, few(), few(), any::<u8>(), any::<u64>())
        .prop_flat_map(|(f, inserted, before, after, mode, mask)| {
            let fam = ops::FAMILIES[f as usize];
            prop_oneof![4 => ops::family_text(fam), 4 => gen::lengthy(ops::family_text(fam), 700), 1 => gen::very_long(ops::family_text(fam), 3000)].prop_map(move |text| {
                Invariance { family: f, text: suited(fam, text), mode, mask, inserted: inserted.clone(), before: before.clone(), after: after.clone() }
            })
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct BmInvariance {
    case: BmTotal,
    mode: u8,
    mask: u64,
    before: Vec<u8>,
    after: Vec<u8>,
}

fn check_bm_invariance(c: &BmInvariance, obs: &mut Obs) -> CheckResult {
    let (o, text) = (&c.case.o, &c.case.text);
    let e = bm::encoder(if c.case.full { bm::full() } else { bm::embedded() }, o);
    let cased = recase_unicode(text, c.mode, c.mask);
    let inv = invisible_around("bm-embedded");
    let pick = |v: &[u8]| -> String { v.iter().map(|k| inv[*k as usize % inv.len()]).collect() };
    let around = format!("{}{cased}{}", pick(&c.before), pick(&c.after));
    let (given, langs) = (bm_languages(&c.case), &c.case.langs);
    let (code, of_given) = (e.encode(text), e.encode_with_languages(text, &given));
    if cased != *text {
        ensure_eq!(e.encode(&cased), code, "{o:?}, commons-codec rules {}: {cased:?}, another casing of {text:?}", c.case.full);
    }
    if around != *text {
        ensure_eq!(e.encode_with_languages(&around, &given), of_given, "{o:?}, commons-codec rules {}, given {langs:?}: {around:?}, which is {text:?} in another casing and with blanks around", c.case.full);
    }
    obs.evals(2);
    obs.nontrivial_if(letters(text) >= 2 && around != *text);
    obs.label_if(c.case.full, "commons-codec rules");
    obs.label_if(cased != *text, "casing changed");
    obs.label_if(!c.before.is_empty() || !c.after.is_empty(), "blanks around");
    obs.label_if(code != of_given, "given languages count");
    Ok(())
}

fn invariances() -> Vec<Section> {
    vec![random(
        "same-code",
        "an algorithm (all its settings), a text, another casing of it, and characters the algorithm ignores added inside or around: same code; non-trivial: two letters or more and a changed text",
        1_000_000,
        15_000_000,
        |_| invariance_case(),
        check_invariance,
    ),
    random(
        "long-texts",
        "the same with texts of up to 3,000 characters and hundreds of ignored ones; non-trivial: as above",
        12_000,
        400_000,
        |_| long_invariance_case(),
        check_invariance,
    ),
    random(
        "languages",
        "Beider-Morse with the commons-codec or embedded rules, a text in other casings with the languages detected or given, and with blanks around when they are given: same code; non-trivial: two letters or more and a changed text",
        80_000,
        1_500_000,
        |_| {
            (bm_total_case(), any::<u8>(), any::<u64>(), vec(any::<u8>(), 0..3), vec(any::<u8>(), 0..3))
                .prop_map(|(mut case, mode, mask, before, after)| {
                    case.repeat = 0;
                    BmInvariance { case, mode, mask, before, after }
                })
                .boxed()
        },
        check_bm_invariance,
    )]
}

// ---------------------------------------------------------------- length limits

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct LimitCase {
    text: String,
    limits: [usize; 2],
}

fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

fn check_limits(c: &LimitCase, obs: &mut Obs) -> CheckResult {
    let t = &c.text;
    let mut lossy = false;
    // A text of one character is its own Metaphone code, whatever the limit
    // (and the time it takes is quadratic in the length)
    if t.len() < 9000 && t.to_uppercase().chars().count() > 1 {
        let whole = Metaphone::new(None).encode(t);
        for n in c.limits {
            ensure_eq!(Metaphone::new(Some(n)).encode(t), cut(&whole, n), "Metaphone limited to {n} of {t:?} (whole code {whole:?})");
            lossy |= whole.chars().count() > n;
        }
        ensure_eq!(Metaphone::default().encode(t), cut(&whole, 4), "default Metaphone of {t:?} (whole code {whole:?})");
    }
    let whole = DoubleMetaphone::new(None).double_metaphone(t);
    for n in c.limits {
        let d = DoubleMetaphone::new(Some(n));
        let r = d.double_metaphone(t);
        ensure_eq!(r.primary(), cut(&whole.primary(), n), "DoubleMetaphone limited to {n}, primary of {t:?} ({whole})");
        ensure_eq!(r.alternate(), cut(&whole.alternate(), n), "DoubleMetaphone limited to {n}, alternate of {t:?} ({whole})");
        ensure_eq!(d.encode(t), cut(&whole.primary(), n), "DoubleMetaphone limited to {n}, encode of {t:?} ({whole})");
        ensure_eq!(d.encode_alternate(t), cut(&whole.alternate(), n), "DoubleMetaphone limited to {n}, encode_alternate of {t:?} ({whole})");
        lossy |= whole.primary().chars().count() > n;
    }
    ensure_eq!(DoubleMetaphone::default().encode(t), cut(&whole.primary(), 4), "default DoubleMetaphone of {t:?} ({whole})");
    let whole = Nysiis::new(false).encode(t);
    ensure_eq!(Nysiis::new(true).encode(t), cut(&whole, 6), "strict Nysiis of {t:?} (whole code {whole:?})");
    ensure_eq!(Nysiis::default().encode(t), cut(&whole, 6), "default Nysiis of {t:?} (whole code {whole:?})");
    // Phonex pads: the code for a smaller length starts the one for a bigger length
    let [a, b] = c.limits.map(|n| if t.len() < 700 { n.min(3000) } else { n.min(100_000) });
    let (a, b) = (a.min(b), a.max(b));
    let (x, y) = (Phonex::new(a).encode(t), Phonex::new(b).encode(t));
    ensure_eq!(x, cut(&y, a), "Phonex of length {a} of {t:?} against the one of length {b}, {y:?}");
    if !x.is_empty() {
        ensure_eq!(y.chars().count(), b, "length of the Phonex code of length {b} of {t:?}: {y:?}");
        let m = t.chars().count() * 3 + 1;
        if b > m {
            let rest: String = y.chars().skip(m).collect();
            ensure!(rest.chars().all(|c| c == '0'), "the Phonex code {y:?} of {t:?} is not padded with zeros");
        }
    }
    ensure_eq!(Phonex::default().encode(t), Phonex::new(4).encode(t), "default Phonex of {t:?}");
    obs.evals(14);
    obs.nontrivial_if(lossy);
    obs.label_if(!t.is_ascii(), "non-ascii");
    Ok(())
}

fn limit_case() -> BoxedStrategy<LimitCase> {
    let n = || prop_oneof![8 => 0usize..10, 2 => 10usize..40, 1 => 40usize..2000, 1 => Just(usize::MAX), 1 => any::<usize>()];
    (
        prop_oneof![
            2 => ops::family_text("metaphone"), 3 => ops::family_text("double-metaphone"), 1 => ops::family_text("nysiis"),
            1 => ops::family_text("phonex"), 1 => any_text()
        ],
        n(),
        n(),
    )
        .prop_map(|(text, a, b)| LimitCase { text, limits: [a, b] })
        .boxed()
}

fn long_limit_case() -> BoxedStrategy<LimitCase> {
    let piece = || {
        prop_oneof![
            2 => ops::family_text("metaphone"), 3 => ops::family_text("double-metaphone"), 1 => ops::family_text("nysiis"),
            1 => ops::family_text("phonex")
        ]
        .boxed()
    };
    let n = || prop_oneof![1 => 0usize..20, 4 => 20usize..140, 2 => 140usize..600, 3 => select(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257][..])];
    (gen::lengthy(piece(), 700), n(), n()).prop_map(|(text, a, b)| LimitCase { text, limits: [a, b] }).boxed()
}

fn very_long_limit_case() -> BoxedStrategy<LimitCase> {
    let piece = || {
        prop_oneof![
            3 => ops::family_text("metaphone"), 3 => ops::family_text("double-metaphone"), 1 => ops::family_text("nysiis"),
            1 => ops::family_text("phonex")
        ]
        .boxed()
    };
    let n = || {
        prop_oneof![
            2 => 500usize..3000,
            1 => 3000usize..70_000,
            3 => (select(&[512usize, 1000, 1024, 2048, 4096, 8192, 10_000, 16_384, 32_768, 65_536][..]), 0usize..4).prop_map(|(n, d)| n + d - 2),
        ]
    };
    (prop_oneof![3 => gen::very_long(piece(), 8_200), 1 => gen::very_long(piece(), 70_000)], n(), n()).prop_map(|(text, a, b)| LimitCase { text, limits: [a, b] }).boxed()
}

fn limits() -> Vec<Section> {
    let red: &'static [char] = &['A', 'C', 'G', 'H', 'I', 'S', 'T', 'X', 'Z', 'W'];
    vec![
        random(
            "prefixes",
            "a text and two limits (0 to unlimited): the limited code is the beginning of the unlimited one, for Metaphone, DoubleMetaphone, Nysiis and Phonex; non-trivial: the limit cuts something",
            2_000_000,
            30_000_000,
            |_| limit_case(),
            check_limits,
        ),
        random(
            "long-prefixes",
            "texts of 20 to 700 characters with limits as far as the length of their codes and beyond; non-trivial: as above",
            30_000,
            1_000_000,
            |_| long_limit_case(),
            check_limits,
        ),
        random(
            "very-long-prefixes",
            "texts of 700 to 70,000 characters with limits from 500 to 70,000; non-trivial: as above",
            400,
            10_000,
            |_| very_long_limit_case(),
            check_limits,
        ),
        exhaustive(
            "exhaustive-prefixes",
            "every string over a reduced alphabet, each with every limit up to 5; non-trivial: as above",
            move |t| gen::count_strings(red.len(), if t == Tier::Quick { 5 } else { 6 }) * 3,
            move |i| LimitCase { text: gen::nth_string(red, i / 3), limits: [[0, 3], [1, 4], [2, 5]][i as usize % 3] },
            check_limits,
        ),
    ]
}

// ---------------------------------------------------------------- Beider-Morse structure

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct BmCase {
    o: Opts,
    full: bool,
    words: Vec<String>,
    particle: u8,
    order: u8,
}

const PARTICLES: &[&str] = &["da", "dal", "de", "del", "dela", "della", "des", "di", "do", "dos", "du", "van", "von"];

fn alternatives_ok(code: &str) -> Result<usize, String> {
    let v: Vec<&str> = code.split('|').collect();
    let set: BTreeSet<&&str> = v.iter().collect();
    ensure!(set.len() == v.len(), "the same phonemes several times in {code:?}");
    ensure!(!code.contains(['(', ')', '[', ']', '-']), "unexpected character in {code:?}");
    Ok(v.len())
}

fn check_structure(c: &BmCase, obs: &mut Obs) -> CheckResult {
    let cfg = if c.full { bm::full() } else { bm::embedded() };
    let e = bm::encoder(cfg, &c.o);
    let text = c.words.join(" ");
    let lower: Vec<String> = c.words.iter().map(|w| w.to_lowercase()).collect();
    let tag = format!("{:?}, {} rules", c.o, if c.full { "commons-codec" } else { "embedded" });
    // no leading particle: only then is the output a plain list
    let plain = c.o.nt != Nt::Gen
        || !(lower.first().is_some_and(|w| w.starts_with("d'"))
            || (lower.len() > 1 && PARTICLES.contains(&lower[0].as_str())));
    let code = e.encode(&text);
    obs.evals(1);
    if plain && (c.o.concat || c.words.len() == 1) {
        let n = alternatives_ok(&code).map_err(|m| format!("{tag}: {text:?}: {m}"))?;
        obs.label_if(n > 1, "alternatives");
        // each of the three steps multiplies the alternatives by the limit at most
        ensure!(n <= c.o.max.saturating_pow(3) || code.is_empty(), "{tag}: {n} alternatives for {text:?}: {code:?}");
        // a limit only removes alternatives
        if text.chars().count() <= 9 {
            let all = bm::encoder(cfg, &Opts { max: usize::MAX, ..c.o.clone() }).encode(&text);
            let set: BTreeSet<&str> = all.split('|').collect();
            for max in [1, 3, c.o.max] {
                let low = bm::encoder(cfg, &Opts { max, ..c.o.clone() }).encode(&text);
                let extra: Vec<&str> = low.split('|').filter(|a| !a.is_empty() && !set.contains(a)).collect();
                ensure!(extra.is_empty(), "{tag}: {text:?}: {extra:?} appear with the limit {max} but not without one: {all:?}");
                ensure!(max > 1 || !low.contains('|'), "{tag}: several alternatives with a limit of one for {text:?}: {low:?}");
                obs.label_if(low != all, "limit reached");
                obs.eval();
            }
        }
    }
    if plain && !c.o.concat && c.words.len() > 1 {
        let each: Vec<String> = c.words.iter().map(|w| e.encode(w)).collect();
        ensure_eq!(code, each.join("-"), "{tag}: {text:?} word by word");
        obs.label("word by word");
    }
    let particle = PARTICLES[c.particle as usize % PARTICLES.len()];
    match c.o.nt {
        Nt::Gen => {
            for (written, glued) in [(format!("{particle} {text}"), format!("{particle}{text}")), (format!("d'{text}"), format!("d{text}"))] {
                // the rest is encoded on its own, in lower case with hyphens as spaces
                let norm = |s: &str| s.to_lowercase().replace('-', " ");
                let want = format!("({})-({})", e.encode(&norm(&text)), e.encode(&norm(&glued)));
                ensure_eq!(e.encode(&written), want, "{tag}: {written:?}, a name with a particle");
                ensure_eq!(e.encode(&written.to_uppercase()), e.encode(&written.to_uppercase().to_lowercase()), "{tag}: upper case of {written:?}");
                obs.evals(2);
            }
        }
        Nt::Ash | Nt::Sep if !c.full && c.o.concat => {
            let p = if c.o.nt == Nt::Ash { ["bar", "ben", "da", "de", "van", "von"][c.particle as usize % 6] } else { ["al", "el", particle][c.particle as usize % 3] };
            let mut w = c.words.clone();
            w.insert(c.order as usize % (w.len() + 1), p.to_string());
            let with = w.join(" ");
            ensure_eq!(e.encode(&with), code, "{tag}: {with:?}, particle {p:?} dropped");
            obs.evals(1);
            if c.o.nt == Nt::Sep {
                let q: Vec<String> = c.words.iter().map(|w| format!("{p}'{w}")).collect();
                let q = q.join(" ");
                ensure_eq!(e.encode(&q), code, "{tag}: {q:?}, what precedes an apostrophe dropped");
                obs.evals(1);
            }
        }
        _ => {}
    }
    if !c.full {
        // nothing to detect
        ensure_eq!(e.encode_with_languages(&text, &LanguageSet::Any), code, "{tag}: {text:?} with any language");
        let h = c.words.join("-");
        ensure_eq!(e.encode(&h), e.encode(&h.replace('-', " ")), "{tag}: hyphens of {h:?} as spaces");
        obs.evals(2);
    }
    // settings: defaults, order, last one wins, the builder can be used again
    let mut b = BeiderMorseBuilder::new(cfg);
    let d = Opts { nt: Nt::Gen, rt: Rt::Approx, concat: true, max: 20 };
    let first = b.build();
    ensure_eq!(first.encode(&text), bm::encoder(cfg, &d).encode(&text), "default settings against explicit ones, {text:?}");
    // other values first, then the wanted ones in another order
    b = b.max_phonemes(1).concat(!c.o.concat).rule_type(if c.o.rt == Rt::Exact { RuleType::Approx } else { RuleType::Exact });
    for k in 0..4u8 {
        b = match (k + c.order % 4) % 4 {
            0 => b.name_type(c.o.nt.cut()),
            1 => b.rule_type(c.o.rt.cut()),
            2 => b.concat(c.o.concat),
            _ => b.max_phonemes(c.o.max),
        };
    }
    let (x, y) = (b.build(), b.clone().build());
    ensure_eq!(x.encode(&text), code, "{tag}: settings given in another order, {text:?}");
    ensure_eq!(y.encode(&text), code, "{tag}: a copy of the builder, {text:?}");
    ensure_eq!(first.encode(&text), bm::encoder(cfg, &d).encode(&text), "an encoder built before its builder was changed, {text:?}");
    obs.evals(5);
    obs.nontrivial_if(letters(&text) >= 2 && !code.is_empty());
    obs.label_if(c.words.len() > 1, "several words");
    obs.label_if(c.full, "commons-codec rules");
    Ok(())
}

fn bm_case() -> BoxedStrategy<BmCase> {
    (bm::opts(), any::<bool>(), any::<u8>(), any::<u8>())
        .prop_flat_map(|(o, full, particle, order)| {
            let word = bm::any_text(o.nt).prop_map(|t| {
                t.split_whitespace()
                    .map(|w| w.chars().filter(|c| !"-'|()[]".contains(*c)).take(12).collect::<String>())
                    .find(|w: &String| !w.is_empty())
                    .unwrap_or_else(|| "ab".to_string())
            });
            vec(word, 1..4).prop_map(move |words| {
                let mut o = o.clone();
                o.max = o.max.min(if words.iter().map(|w| w.len()).sum::<usize>() > 12 { 60 } else { 300 });
                // now and then the same word again
                let words: Vec<String> = if order % 8 == 0 { words.iter().flat_map(|w| [w.clone(), w.clone()]).take(4).collect() } else { words };
                // a word the name type drops is no word
                let words: Vec<String> = words
                    .into_iter()
                    .map(|w| if o.nt != Nt::Gen && (PARTICLES.contains(&w.to_lowercase().as_str()) || ["bar", "ben", "al", "el"].contains(&w.to_lowercase().as_str())) { format!("{w}x") } else { w })
                    .collect();
                BmCase { o, full, words, particle, order }
            })
        })
        .boxed()
}

fn bm_structure() -> Vec<Section> {
    vec![random(
        "structure",
        "options, embedded or commons-codec rules, one to three words: alternatives distinct and within the limit, particles, words apart, builder settings; non-trivial: two letters or more and a non-empty code",
        60_000,
        1_500_000,
        |_| bm_case(),
        check_structure,
    )]
}

// ---------------------------------------------------------------- language sets

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum Lset {
    Any,
    None,
    Of(BTreeSet<String>),
}

impl Lset {
    fn cut(&self) -> LanguageSet {
        match self {
            Lset::Any => LanguageSet::Any,
            Lset::None => LanguageSet::NoLanguages,
            Lset::Of(s) => LanguageSet::SomeLanguages(s.clone()),
        }
    }
    /// None is every language
    fn set(&self) -> Option<BTreeSet<String>> {
        match self {
            Lset::Any => None,
            Lset::None => Some(BTreeSet::new()),
            Lset::Of(s) => Some(s.clone()),
        }
    }
}

fn denote(l: &LanguageSet) -> Option<BTreeSet<String>> {
    match l {
        LanguageSet::Any => None,
        LanguageSet::NoLanguages => Some(BTreeSet::new()),
        LanguageSet::SomeLanguages(s) => Some(s.clone()),
    }
}

fn lset() -> BoxedStrategy<Lset> {
    let name = prop_oneof![6 => select(vec!["any", "english", "french", "german", "polish", "é", "a"]).prop_map(String::from), 1 => gen::wild(4)];
    prop_oneof![
        1 => Just(Lset::Any),
        1 => Just(Lset::None),
        5 => proptest::collection::btree_set(name, 0..6).prop_map(Lset::Of),
    ]
    .boxed()
}

fn check_lsets(c: &(Lset, Lset, Lset), obs: &mut Obs) -> CheckResult {
    type S = Option<BTreeSet<String>>;
    let and = |a: &S, b: &S| -> S {
        match (a, b) {
            (None, x) | (x, None) => x.clone(),
            (Some(a), Some(b)) => Some(a & b),
        }
    };
    let or = |a: &S, b: &S| -> S {
        match (a, b) {
            (None, _) | (_, None) => None,
            (Some(a), Some(b)) => Some(a | b),
        }
    };
    let (a, b, d) = (c.0.cut(), c.1.cut(), c.2.cut());
    let (x, y, z) = (c.0.set(), c.1.set(), c.2.set());
    ensure_eq!(denote(&a.restrict_to(&b)), and(&x, &y), "{a:?} restricted to {b:?}");
    ensure_eq!(denote(&a.merge(&b)), or(&x, &y), "{a:?} merged with {b:?}");
    ensure_eq!(denote(&a.restrict_to(&b).restrict_to(&d)), and(&and(&x, &y), &z), "{a:?} restricted to {b:?} then {d:?}");
    ensure_eq!(denote(&a.restrict_to(&b.restrict_to(&d))), and(&and(&x, &y), &z), "{a:?} restricted to ({b:?} restricted to {d:?})");
    ensure_eq!(denote(&a.merge(&b).merge(&d)), or(&or(&x, &y), &z), "{a:?} merged with {b:?} then {d:?}");
    ensure_eq!(denote(&a.restrict_to(&b.merge(&d))), and(&x, &or(&y, &z)), "{a:?} restricted to ({b:?} merged with {d:?})");
    for (l, s) in [(&a, &x), (&a.restrict_to(&b), &and(&x, &y)), (&a.merge(&d), &or(&x, &z))] {
        ensure_eq!(l.is_empty(), s.as_ref().is_some_and(|s| s.is_empty()), "is_empty of {l:?}");
        ensure_eq!(l.is_singleton(), s.as_ref().is_some_and(|s| s.len() == 1), "is_singleton of {l:?}");
        ensure_eq!(l.any().map(String::from), s.as_ref().and_then(|s| s.first().cloned()), "first language of {l:?}");
    }
    // operands are left alone
    ensure_eq!(denote(&a), x, "the first operand afterwards");
    ensure_eq!(denote(&b), y, "the second operand afterwards");
    if let Some(s) = &x {
        ensure_eq!(denote(&LanguageSet::from(s.clone())), x, "from a set");
        ensure!(LanguageSet::from(s.clone()).is_empty() == s.is_empty(), "is_empty of a set made from {s:?}");
        let mut v: Vec<&str> = s.iter().map(|s| s.as_str()).collect();
        v.reverse();
        let dup: Vec<&str> = v.iter().chain(v.iter()).copied().collect();
        ensure_eq!(denote(&LanguageSet::from(v)), x, "from a list");
        ensure_eq!(denote(&LanguageSet::from(dup)), x, "from a list with duplicates");
    }
    let text = match &c.0 {
        Lset::Any => "ANY_LANGUAGE".to_string(),
        Lset::None => "NO_LANGUAGES".to_string(),
        Lset::Of(s) => s.iter().cloned().collect::<Vec<_>>().join(","),
    };
    ensure_eq!(a.to_string(), text, "text of {a:?}");
    ensure_eq!(a == b, c.0.same(&c.1), "equality of {a:?} and {b:?}");
    obs.evals(18);
    obs.nontrivial_if(matches!((&c.0, &c.1), (Lset::Of(p), Lset::Of(q)) if !p.is_empty() && !q.is_empty()));
    Ok(())
}

impl Lset {
    fn same(&self, o: &Lset) -> bool {
        match (self, o) {
            (Lset::Any, Lset::Any) | (Lset::None, Lset::None) => true,
            (Lset::Of(a), Lset::Of(b)) => a == b,
            _ => false,
        }
    }
}

/// Sets of up to 700 names.
fn large_lset() -> BoxedStrategy<Lset> {
    let part = (0usize..700, prop_oneof![3 => 0usize..40, 3 => 40usize..150, 2 => 150usize..400], 1usize..4);
    vec(part, 1..3)
        .prop_map(|parts| Lset::Of(parts.iter().flat_map(|(from, n, step)| (*from..from + n).step_by(*step)).map(|i| format!("l{}", i % 700)).collect()))
        .boxed()
}

fn language_sets() -> Vec<Section> {
    vec![random(
        "large-sets",
        "the same with sets of up to 700 names; non-trivial: as above",
        8_000,
        200_000,
        |_| (large_lset(), prop_oneof![6 => large_lset(), 1 => lset()], prop_oneof![3 => large_lset(), 1 => lset()]).boxed(),
        check_lsets,
    ), random(
        "algebra",
        "three language sets (any, none, or up to five names): union, intersection, their laws, queries, constructors and text against plain sets; non-trivial: two non-empty sets of names",
        2_000_000,
        20_000_000,
        |_| (lset(), lset(), lset()).boxed(),
        check_lsets,
    )]
}

// ---------------------------------------------------------------- character slices

fn check_slices((s, a, b): &(String, usize, usize), obs: &mut Obs) -> CheckResult {
    let v: Vec<char> = s.chars().collect();
    let c = CharSequence::from(s.as_str());
    let (a, b) = (*a, *b);
    let model = |from: usize, to: usize| -> String {
        let to = to.min(v.len());
        if from >= to {
            String::new()
        } else {
            v[from..to].iter().collect()
        }
    };
    let n = v.len();
    ensure_eq!(c.len(), n, "len of {s:?}");
    ensure_eq!(c.is_empty(), n == 0, "is_empty of {s:?}");
    ensure_eq!(c.as_str(), s.as_str(), "as_str of {s:?}");
    ensure_eq!(c.to_string(), *s, "text of {s:?}");
    ensure_eq!(indexing(|| c[a..b].to_string()), model(a, b), "{a}..{b} of {s:?}");
    ensure_eq!(indexing(|| c[a..].to_string()), model(a, n), "{a}.. of {s:?}");
    ensure_eq!(indexing(|| c[..b].to_string()), model(0, b), "..{b} of {s:?}");
    ensure_eq!(indexing(|| &c[..]), s.as_str(), ".. of {s:?}");
    let after = b.saturating_add(1);
    ensure_eq!(indexing(|| c[a..=b].to_string()), model(a, after), "{a}..={b} of {s:?}");
    ensure_eq!(indexing(|| c[..=b].to_string()), model(0, after), "..={b} of {s:?}");
    // a cut anywhere loses nothing
    ensure_eq!(indexing(|| format!("{}{}", &c[..a], &c[a..])), *s, "both sides of {a} in {s:?}");
    let d = c.clone();
    ensure!(d == c && d.cmp(&c) == std::cmp::Ordering::Equal, "a copy of {s:?} differs");
    let back: &str = c.into();
    ensure_eq!(back, s.as_str(), "back to text");
    obs.evals(12);
    obs.nontrivial_if(a < b && a < n && s.len() != n);
    obs.label_if(b > n, "beyond the end");
    obs.label_if(a > b, "reversed");
    Ok(())
}

fn long_slice() -> BoxedStrategy<(String, usize, usize)> {
    const EDGES: &[usize] = &[255, 256, 1000, 1024, 4096, 10_000, 16_384, 32_768, 65_536, 70_000];
    let body = prop_oneof![2 => gen::wild(12), 1 => vec(select(vec!['a', 'b', 'é', '中', '😀']), 1..8).prop_map(|v| v.into_iter().collect::<String>()), 1 => Just("abcdefghijk".to_string())];
    (body, prop_oneof![4 => 200usize..3000, 1 => 3000usize..80_000])
        .prop_flat_map(|(body, n)| {
            let at = move || {
                prop_oneof![
                    4 => 0..n,
                    3 => (select(EDGES), 0usize..5).prop_map(|(e, d)| e + d - 2),
                    2 => (0usize..6).prop_map(move |d| (n + 2).saturating_sub(d)),
                    1 => 0usize..10,
                    1 => Just(usize::MAX),
                ]
            };
            let k = body.chars().count();
            let text: String = if k == 0 { String::new() } else { body.repeat(n / k + 1).chars().take(n).collect() };
            (Just(text), at(), at())
        })
        .boxed()
}

fn slices() -> Vec<Section> {
    let al: &'static [char] = &['a', 'é', '中', '😀'];
    vec![
        random(
            "slices",
            "a text and two positions: every kind of range against a vector of characters; non-trivial: a multi-byte text and a non-empty range",
            2_000_000,
            20_000_000,
            |_| {
                let n = || prop_oneof![10 => 0usize..14, 1 => Just(usize::MAX), 1 => any::<usize>()];
                (prop_oneof![2 => gen::wild(12), 1 => any_text()], n(), n()).boxed()
            },
            check_slices,
        ),
        random(
            "long-slices",
            "texts of 200 to 80,000 characters, positions around powers of two and ten, around the end or anywhere; non-trivial: as above",
            6_000,
            150_000,
            |_| long_slice(),
            check_slices,
        ),
        exhaustive(
            "exhaustive-slices",
            "every text over {a, é, 中, 😀} up to 5 characters (6 in thorough), every pair of positions up to 7; non-trivial: as above",
            move |t| gen::count_strings(4, if t == Tier::Quick { 5 } else { 6 }) * 64,
            move |i| (gen::nth_string(al, i / 64), (i % 8) as usize, (i / 8 % 8) as usize),
            check_slices,
        ),
    ]
}

// ---------------------------------------------------------------- serialization and texts

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct SerCase {
    mapping: Vec<char>,
    hw: bool,
    limit: Option<usize>,
    text: String,
    set: Lset,
    line: usize,
    file: Option<String>,
}

fn trip<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(x: &T) -> Result<T, String> {
    let j = serde_json::to_string(x).map_err(|e| format!("{x:?} cannot be serialized: {e}"))?;
    let y: T = serde_json::from_str(&j).map_err(|e| format!("{x:?} serialized as {j} cannot be read back: {e}"))?;
    ensure!(&y == x, "{x:?} serialized as {j} reads back as {y:?}");
    let v = serde_json::to_value(x).map_err(|e| format!("{x:?} cannot be serialized: {e}"))?;
    let z: T = serde_json::from_value(v).map_err(|e| format!("{x:?} cannot be read back from a value: {e}"))?;
    ensure!(&z == x, "{x:?} reads back from a value as {z:?}");
    let w: T = serde_json::from_reader(j.as_bytes()).map_err(|e| format!("{x:?} serialized as {j} cannot be read back from a stream: {e}"))?;
    ensure!(&w == x, "{x:?} reads back from a stream as {w:?}");
    // formats that do not describe themselves, or have types JSON lacks
    let b = bincode::serialize(x).map_err(|e| format!("{x:?} cannot be serialized to bincode: {e}"))?;
    let w: T = bincode::deserialize(&b).map_err(|e| format!("{x:?} cannot be read back from bincode {b:?}: {e}"))?;
    ensure!(&w == x, "{x:?} reads back from bincode as {w:?}");
    let r = ron::to_string(x).map_err(|e| format!("{x:?} cannot be serialized to RON: {e}"))?;
    let w: T = ron::from_str(&r).map_err(|e| format!("{x:?} cannot be read back from RON {r}: {e}"))?;
    ensure!(&w == x, "{x:?} reads back from RON as {w:?}");
    Ok(y)
}

fn trip_enc<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + Encoder>(x: &T, text: &str) -> CheckResult {
    let y = trip(x)?;
    ensure_eq!(y.encode(text), x.encode(text), "{x:?} read back, encoding {text:?}");
    Ok(())
}

fn check_ser(c: &SerCase, obs: &mut Obs) -> CheckResult {
    let t = c.text.as_str();
    let Ok(m) = <[char; 26]>::try_from(c.mapping.clone()) else { return Ok(()) };
    trip_enc(&Soundex::new(m, c.hw), t)?;
    trip_enc(&Soundex::default(), t)?;
    trip_enc(&RefinedSoundex::new(m), t)?;
    trip_enc(&RefinedSoundex::default(), t)?;
    trip_enc(&Metaphone::new(c.limit), t)?;
    let d = DoubleMetaphone::new(c.limit);
    trip_enc(&d, t)?;
    let r = d.double_metaphone(t);
    let r2 = trip(&r)?;
    ensure_eq!((r2.primary(), r2.alternate(), r2.to_string()), (r.primary(), r.alternate(), r.to_string()), "a result read back");
    ensure_eq!(r.to_string(), format!("[primary={}, alternate={}]", r.primary(), r.alternate()), "text of a result");
    trip_enc(&Caverphone1, t)?;
    trip_enc(&Caverphone2, t)?;
    trip_enc(&Cologne, t)?;
    trip_enc(&Nysiis::new(c.hw), t)?;
    trip_enc(&Phonex::new(c.limit.unwrap_or(4).min(100)), t)?;
    trip_enc(&MatchRatingApproach, t)?;
    trip(&c.set.cut())?;
    for n in [NameType::Ashkenazi, NameType::Generic, NameType::Sephardic] {
        trip(&n)?;
        let s = n.to_string();
        ensure_eq!(s.parse::<NameType>().ok(), Some(n), "{n:?} written as {s:?} and parsed");
        ensure_eq!(serde_json::to_string(&n).ok(), Some(format!("\"{s}\"")), "serialized form of {n:?}");
        let f = std::ffi::OsString::from(format!("{s}_languages.txt"));
        ensure_eq!(NameType::try_from(f).ok(), Some(n), "name type of the languages file of {n:?}");
    }
    trip(&RuleType::Approx)?;
    trip(&RuleType::Exact)?;
    // only the three names are name types
    let known = ["ash", "gen", "sep"];
    match t.parse::<NameType>() {
        Ok(n) => ensure!(known.contains(&t) && n.to_string() == t, "{t:?} parsed as {n:?}"),
        Err(e) => {
            ensure!(!known.contains(&t), "{t:?} is not parsed");
            ensure_eq!(e, BMError::UnknownNameType(t.to_string()), "error for the name type {t:?}");
        }
    }
    if !["ash_languages.txt", "gen_languages.txt", "sep_languages.txt"].contains(&t) {
        ensure!(NameType::try_from(std::ffi::OsString::from(t)).is_err(), "the file {t:?} has a name type");
    }
    let e = ParseError { line_number: c.line, filename: c.file.clone(), line_content: t.to_string(), description: format!("d{t}") };
    trip(&e)?;
    let text = format!("{}:{} d{t} : {t}", c.file.clone().unwrap_or_else(|| "Unknown".into()), c.line);
    ensure_eq!(e.to_string(), text, "text of a parse error");
    let p = PhoneticError::from(e.clone());
    ensure!(p.to_string().ends_with(&text), "the error {p} does not tell the position {text}");
    ensure_eq!(p, PhoneticError::ParseRuleError(e), "conversion of a parse error");
    if !t.contains(['"', '\\']) && !t.chars().any(|c| c.is_control()) {
        // read back by reference
        let q = CharSequence::from(t);
        let j = serde_json::to_string(&q).map_err(|e| e.to_string())?;
        let q2: CharSequence = serde_json::from_str(&j).map_err(|e| format!("{q:?} serialized as {j} cannot be read back: {e}"))?;
        ensure!(q2 == q && q2.len() == q.len(), "{q:?} reads back as {q2:?}");
    }
    let q = CharSequence::from(t);
    let b = bincode::serialize(&q).map_err(|e| e.to_string())?;
    let q2: CharSequence = bincode::deserialize(&b).map_err(|e| format!("{q:?} cannot be read back from bincode {b:?}: {e}"))?;
    ensure!(q2 == q && q2.len() == q.len() && q2.as_str() == t && indexing(|| q2[1..] == q[1..]), "{q:?} reads back from bincode as {q2:?}");
    obs.evals(31);
    obs.nontrivial_if(t.chars().count() >= 2);
    Ok(())
}

fn ser_case() -> BoxedStrategy<SerCase> {
    let ch = prop_oneof![5 => prop::char::range('0', '9'), 1 => Just('-'), 1 => any::<char>()];
    (
        vec(ch, 26),
        any::<bool>(),
        proptest::option::of(prop_oneof![4 => 0usize..20, 1 => any::<usize>()]),
        prop_oneof![
            4 => any_text(), 1 => gen::wild(10),
            1 => select(vec!["ash", "gen", "sep", "Ash", "GEN", "sep ", " gen", "generic", "ashkenazi", "ash_languages.txt", "gen_languages", "se", "any", ""]).prop_map(String::from)
        ],
        lset(),
        prop_oneof![0usize..1000, any::<usize>()],
        proptest::option::of(gen::wild(8)),
    )
        .prop_map(|(mapping, hw, limit, text, set, line, file)| SerCase { mapping, hw, limit, text, set, line, file })
        .boxed()
}

fn serialization() -> Vec<Section> {
    vec![random(
        "round-trips",
        "settings of every serializable type, a text, a language set, an error: JSON, bincode, RON and text forms read back equal and encode alike; non-trivial: a text of two characters or more",
        400_000,
        5_000_000,
        |_| ser_case(),
        check_ser,
    )]
}

// ---------------------------------------------------------------- embedded rules and defaults

/// The commons-codec files of the language "any", with no other language declared.
fn any_only_config() -> &'static ConfigFiles {
    static C: std::sync::OnceLock<ConfigFiles> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let d = bm::Scratch::new();
        let from = bm::data_dir();
        for nt in Nt::ALL {
            let n = nt.name();
            d.write(&format!("{n}_languages"), "any\n");
            d.write(&format!("{n}_lang"), "");
            for f in ["rules_any", "approx_any", "exact_any", "approx_common", "exact_common", "exact_approx_common"] {
                let t = std::fs::read_to_string(from.join(format!("{n}_{f}.txt"))).expect("pinned rules");
                d.write(&format!("{n}_{f}"), &t);
            }
        }
        match ConfigFiles::new(&d.0) {
            Ok(c) => c,
            Err(e) => panic!("VIOLATES: the commons-codec files of the language any must load: {e}"),
        }
    })
}

/// Generic names starting with a particle are split and their parts encoded with the languages
/// detected, which depend on the languages declared.
fn has_particle(text: &str) -> bool {
    let t = text.to_lowercase().replace('-', " ");
    let t = t.trim();
    t.starts_with("d'") || PARTICLES.iter().any(|p| t.strip_prefix(p).is_some_and(|r| r.starts_with(' ')))
}

fn check_embedded_bm(c: &bm::EncCase, obs: &mut Obs) -> CheckResult {
    let mut o = c.o.clone();
    o.concat = true;
    if o.nt == Nt::Gen && has_particle(&c.text) {
        obs.label("particle, skipped");
        return Ok(());
    }
    let e = bm::encoder(bm::embedded(), &o);
    let code = e.encode(&c.text);
    for (what, f) in [("the commons-codec files of the language any", any_only_config()), ("all the commons-codec files", bm::full())] {
        let f = bm::encoder(f, &o).encode_with_languages(&c.text, &LanguageSet::Any);
        ensure_eq!(code, f, "{o:?}: {:?} with the built-in rules against {what}", c.text);
        obs.eval();
    }
    obs.nontrivial_if(letters(&c.text) >= 2 && !code.is_empty());
    obs.label_if(code.contains('|'), "alternatives");
    Ok(())
}

fn check_embedded_dm(text: &String, obs: &mut Obs) -> CheckResult {
    thread_local! {
        static E: [[DaitchMokotoffSoundex; 2]; 2] = {
            let own = |f: bool| DaitchMokotoffSoundexBuilder::default().ascii_folding(f).build().expect("built-in rules");
            let given = |f: bool| match DaitchMokotoffSoundexBuilder::with_rules(crate::props::dm::SHIPPED).ascii_folding(f).build() {
                Ok(d) => d,
                Err(e) => panic!("VIOLATES: the commons-codec rules must load: {e}"),
            };
            [[own(true), given(true)], [own(false), given(false)]]
        };
    }
    E.with(|e| {
        for (k, [own, given]) in e.iter().enumerate() {
            let codes = given.soundex(text);
            ensure_eq!(own.soundex(text), codes, "Daitch-Mokotoff codes of {text:?}, built-in rules against the file (folding {})", k == 0);
            ensure_eq!(own.encode(text), given.encode(text), "Daitch-Mokotoff code of {text:?}, built-in rules against the file (folding {})", k == 0);
            obs.evals(2);
            obs.nontrivial_if(letters(text) >= 2);
            obs.label_if(codes.contains('|'), "several codes");
        }
        Ok(())
    })
}

fn check_defaults(text: &String, obs: &mut Obs) -> CheckResult {
    const US: &str = "01230120022455012623010202";
    const REFINED: &str = "01360240043788015936020505";
    let map = |s: &str| -> [char; 26] { <[char; 26]>::try_from(s.chars().collect::<Vec<_>>()).expect("26 letters") };
    let pairs: Vec<(&str, Box<dyn Encoder>, Box<dyn Encoder>)> = vec![
        ("Soundex", Box::new(Soundex::default()), Box::new(Soundex::new(map(US), true))),
        ("RefinedSoundex", Box::new(RefinedSoundex::default()), Box::new(RefinedSoundex::new(map(REFINED)))),
        ("Metaphone", Box::new(Metaphone::default()), Box::new(Metaphone::new(Some(4)))),
        ("DoubleMetaphone", Box::new(DoubleMetaphone::default()), Box::new(DoubleMetaphone::new(Some(4)))),
        ("Nysiis", Box::new(Nysiis::default()), Box::new(Nysiis::new(true))),
        ("Phonex", Box::new(Phonex::default()), Box::new(Phonex::new(4))),
    ];
    for (name, a, b) in &pairs {
        let want = b.encode(text);
        ensure_eq!(a.encode(text), want, "default {name} against the documented settings, {text:?}");
        obs.eval();
        obs.nontrivial_if(!want.is_empty() && letters(text) >= 2);
    }
    Ok(())
}

fn check_default_bm(c: &bm::EncCase, obs: &mut Obs) -> CheckResult {
    let cfg = if c.o.concat { bm::embedded() } else { bm::full() };
    let d = Opts { nt: Nt::Gen, rt: Rt::Approx, concat: true, max: 20 };
    let code = BeiderMorseBuilder::new(cfg).build().encode(&c.text);
    ensure_eq!(code, bm::encoder(cfg, &d).encode(&c.text), "default Beider-Morse settings against the documented ones, {:?}", c.text);
    obs.eval();
    obs.nontrivial_if(!code.is_empty() && letters(&c.text) >= 2);
    Ok(())
}

fn defaults() -> Vec<Section> {
    let letters: &'static [char] = &[
        'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', 'ţ', 'ę',
    ];
    vec![
        random(
            "beider-morse",
            "options and a text: the built-in rules against the commons-codec files; non-trivial: two letters or more and a non-empty code",
            100_000,
            1_500_000,
            |_| bm::enc_case(),
            check_embedded_bm,
        ),
        random(
            "daitch-mokotoff",
            "a text: the built-in rules against the commons-codec file; non-trivial: two letters or more",
            600_000,
            8_000_000,
            |_| prop_oneof![4 => ops::family_text("daitch-mokotoff"), 1 => any_text()].boxed(),
            check_embedded_dm,
        ),
        exhaustive(
            "daitch-mokotoff-strings",
            "every string over the 26 letters, ţ and ę, up to 3 letters (4 in thorough); non-trivial: two letters or more",
            move |t| gen::count_strings(letters.len(), if t == Tier::Quick { 3 } else { 4 }),
            move |i| gen::nth_string(letters, i),
            check_embedded_dm,
        ),
        random(
            "settings",
            "a text: every encoder with its default settings against the documented ones; non-trivial: two letters or more and a non-empty code",
            600_000,
            8_000_000,
            |_| any_text(),
            check_defaults,
        ),
        random(
            "beider-morse-settings",
            "a text: the builder untouched against the documented settings; non-trivial: two letters or more and a non-empty code",
            30_000,
            500_000,
            |_| bm::enc_case(),
            check_default_bm,
        ),
    ]
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C01", assumptions: &[], sections: totality },
        Property { id: "C02", assumptions: &[], sections: purity },
        Property { id: "C17", assumptions: &[], sections: comparisons },
        Property { id: "C18", assumptions: &[], sections: formats },
        Property { id: "C19", assumptions: &[], sections: invariances },
        Property { id: "C20", assumptions: &[], sections: limits },
        Property { id: "C21", assumptions: &[], sections: bm_structure },
        Property { id: "C22", assumptions: &[], sections: language_sets },
        Property { id: "C23", assumptions: &[], sections: slices },
        Property { id: "C24", assumptions: &[], sections: serialization },
        Property { id: "C25", assumptions: &[], sections: defaults },
    ]
}
