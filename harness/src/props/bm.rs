//! Beider-Morse: encoding with the shipped configurations and with generated ones, language
//! detection, configuration files.

use crate::fw::*;
use crate::gen;
use crate::models::bm::*;
use crate::models::lines::{Damage, Kind};
use crate::props::dm::{assemble, damage, noise, noise_lines, pad, Noise, Pad};
use crate::{ensure, ensure_eq};
use proptest::collection::{btree_set, vec};
use proptest::prelude::*;
use proptest::sample::select;
use rphonetic::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub fn data_dir() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).join("data/cc-rules")
}

/// Models of the commons-codec configuration and of the embedded one.
pub struct Shipped {
    pub model: Config,
    pub any_model: Config,
}

pub fn shipped() -> &'static Shipped {
    static C: OnceLock<Shipped> = OnceLock::new();
    C.get_or_init(|| Shipped {
        model: load_dir(&data_dir()).expect("pinned configuration"),
        any_model: any_only(&data_dir()).expect("pinned configuration"),
    })
}

/// The commons-codec configuration, loaded by the code under test.
pub fn full() -> &'static ConfigFiles {
    static C: OnceLock<ConfigFiles> = OnceLock::new();
    C.get_or_init(|| match ConfigFiles::new(&data_dir()) {
        Ok(c) => c,
        Err(e) => panic!("VIOLATES: the commons-codec configuration must load: {e}"),
    })
}

pub fn embedded() -> &'static ConfigFiles {
    static C: OnceLock<ConfigFiles> = OnceLock::new();
    C.get_or_init(ConfigFiles::default)
}

pub fn encoder<'a>(c: &'a ConfigFiles, o: &Opts) -> BeiderMorse<'a> {
    BeiderMorseBuilder::new(c)
        .name_type(o.nt.cut())
        .rule_type(o.rt.cut())
        .concat(o.concat)
        .max_phonemes(o.max)
        .build()
}

// ---------------------------------------------------------------- texts directed at rules

/// A text matched by a context or detection expression, as far as sampling goes.
pub fn sample_regex(src: &str, pick: &mut dyn FnMut(usize) -> usize) -> String {
    fn go(h: &regex_syntax::hir::Hir, pick: &mut dyn FnMut(usize) -> usize, out: &mut String) {
        use regex_syntax::hir::{Class, HirKind};
        match h.kind() {
            HirKind::Empty | HirKind::Look(_) => {}
            HirKind::Literal(l) => out.push_str(&String::from_utf8_lossy(&l.0)),
            HirKind::Class(Class::Unicode(c)) => {
                let r = c.ranges();
                if r.is_empty() {
                    return;
                }
                // small classes: any member; negated ones: ordinary letters when possible
                let small: Vec<char> = r
                    .iter()
                    .flat_map(|r| r.start()..=r.end())
                    .filter(|c| c.is_alphabetic())
                    .take(120)
                    .collect();
                // and now and then what a wrongly read class would treat apart
                let strange: Vec<char> = "^-]$.9'é中".chars().filter(|c| r.iter().any(|r| r.start() <= *c && *c <= r.end())).collect();
                if strange.len() > 2 && pick(5) == 0 {
                    out.push(strange[pick(strange.len())]);
                } else if small.is_empty() {
                    out.push(r[pick(r.len())].start());
                } else {
                    out.push(small[pick(small.len())]);
                }
            }
            HirKind::Class(_) => out.push('a'),
            HirKind::Repetition(r) => {
                let max = r.max.unwrap_or(r.min + 2).min(r.min + 2);
                let n = r.min as usize + pick((max - r.min) as usize + 1);
                for _ in 0..n {
                    go(&r.sub, pick, out);
                }
            }
            HirKind::Capture(c) => go(&c.sub, pick, out),
            HirKind::Concat(v) => v.iter().for_each(|h| go(h, pick, out)),
            HirKind::Alternation(v) => go(&v[pick(v.len())], pick, out),
        }
    }
    let mut out = String::new();
    if let Ok(h) = regex_syntax::Parser::new().parse(src) {
        go(&h, pick, &mut out);
    }
    out
}

fn picker(seed: u64) -> impl FnMut(usize) -> usize {
    let mut x = seed | 1;
    move |n| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((x >> 33) as usize) % n.max(1)
    }
}

/// The context text around a rule: literal reading (contexts without a class) or as an expression.
fn around(src: &str, pick: &mut dyn FnMut(usize) -> usize) -> String {
    if !src.contains('[') && pick(2) == 0 {
        return src.trim_start_matches('^').trim_end_matches('$').to_string();
    }
    sample_regex(src, pick)
}

/// All the first-stage rules of a name type, plus detection expressions.
struct Seeds {
    rules: Vec<(String, String, String)>,
    detection: Vec<String>,
}

fn seeds(nt: Nt) -> &'static Seeds {
    static C: OnceLock<BTreeMap<&'static str, Seeds>> = OnceLock::new();
    &C.get_or_init(|| {
        let c = &shipped().model;
        Nt::ALL
            .iter()
            .map(|nt| {
                let mut rules = vec![];
                for (f, m) in &c.rules {
                    if f.starts_with(&format!("{}_rules_", nt.name())) {
                        for r in m.values().flatten() {
                            rules.push((r.left_src.clone(), r.pattern.iter().collect(), r.right_src.clone()));
                        }
                    }
                }
                let detection = c.detection[nt.name()].iter().map(|r| r.pattern.as_str().to_string()).collect();
                (nt.name(), Seeds { rules, detection })
            })
            .collect()
    })[nt.name()]
}

fn rule_text(r: &(String, String, String), seed: u64) -> String {
    let mut p = picker(seed);
    let mut s = around(&r.0, &mut p);
    s.push_str(&r.1);
    s.push_str(&around(&r.2, &mut p));
    s
}

/// Pieces directed at rules of the name type, around which the texts are built.
fn directed(nt: Nt) -> BoxedStrategy<String> {
    let s = seeds(nt);
    prop_oneof![
        5 => (0..s.rules.len(), any::<u64>()).prop_map(move |(i, k)| rule_text(&s.rules[i], k)),
        2 => (0..s.detection.len(), any::<u64>()).prop_map(move |(i, k)| sample_regex(&s.detection[i], &mut picker(k))),
    ]
    .boxed()
}

const PARTICLES: &[&str] = &[
    "d'", "D'", "van ", "Van ", "von ", "de ", "de la ", "dela ", "della ", "des ", "di ", "do ", "dos ", "du ", "da ", "dal ",
    "del ", "al ", "el ", "ben ", "bar ", "al-", "de-", "van-", "D'd'", "de de ", "l'", "o'", "ben-", "bar", "van", " van ", "d' ",
];

fn name_text(nt: Nt) -> BoxedStrategy<String> {
    let piece = || {
        prop_oneof![
            6 => directed(nt),
            3 => gen::ascii_letter(),
            2 => select(gen::NAMES).prop_map(|s| s.to_string()),
            1 => gen::odd(),
            1 => gen::punct(),
        ]
    };
    let word = || vec(piece(), 1..4).prop_map(|v| v.concat());
    let sep = || select(vec![" ", " ", "-", "'", "  ", "\t", "\u{a0}", " de ", " van ", " ben ", " al-", " de la "]);
    (
        proptest::option::weighted(0.3, select(PARTICLES)),
        word(),
        proptest::option::weighted(0.4, (sep(), word())),
        proptest::option::weighted(0.1, (sep(), word())),
        0u8..5,
        any::<u64>(),
    )
        .prop_map(|(p, a, b, c, m, k)| {
            let mut s = p.unwrap_or("").to_string();
            s.push_str(&a);
            for (x, y) in [b, c].into_iter().flatten() {
                s.push_str(x);
                s.push_str(&y);
            }
            gen::recase(&s, m, k)
        })
        .boxed()
}

pub fn any_text(nt: Nt) -> BoxedStrategy<String> {
    let text = prop_oneof![7 => name_text(nt), 2 => directed(nt), 1 => gen::wild(8), 1 => gen::noisy(gen::NAMES, 3)];
    let twice = (name_text(nt), select(&[" ", "-", "  ", "'", " a ", ""][..])).prop_map(|(t, between)| {
        let t: String = t.chars().take(14).collect();
        format!("{t}{between}{t}")
    });
    prop_oneof![30 => text, 1 => twice].boxed()
}

pub fn opts() -> BoxedStrategy<Opts> {
    (
        select(&Nt::ALL[..]),
        select(vec![Rt::Approx, Rt::Exact]),
        prop_oneof![3 => Just(true), 1 => Just(false)],
        prop_oneof![6 => Just(20usize), 6 => 1usize..12, 2 => 12usize..60, 2 => Just(usize::MAX), 1 => Just(0usize)],
    )
        .prop_map(|(nt, rt, concat, max)| Opts { nt, rt, concat, max })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct EncCase {
    pub o: Opts,
    pub text: String,
}

pub fn enc_case() -> BoxedStrategy<EncCase> {
    opts()
        .prop_flat_map(|o| any_text(o.nt).prop_map(move |text| EncCase { o: limit(&o, &text), text }))
        .boxed()
}

fn long_enc_case() -> BoxedStrategy<EncCase> {
    opts()
        .prop_flat_map(|o| {
            let max = if o.max > 30 { 10 } else { o.max };
            gen::lengthy(any_text(o.nt), 130).prop_map(move |text| EncCase { o: Opts { max, ..o.clone() }, text })
        })
        .boxed()
}

/// An unlimited number of phonemes only for short texts.
fn limit(o: &Opts, text: &str) -> Opts {
    let mut o = o.clone();
    if o.max > 100 && text.chars().count() > 12 {
        o.max = 100;
    }
    o
}

fn note(o: &Opts, out: &str, text: &str, obs: &mut Obs) {
    obs.nontrivial_if(!out.is_empty() && text.chars().filter(|c| c.is_alphabetic()).count() >= 2);
    obs.label_if(out.contains('|'), "several phonemes");
    obs.label_if(out.contains(")-("), "particle");
    obs.label_if(!out.contains('(') && out.contains('-'), "word by word");
    obs.label_if(!text.is_ascii(), "non-ascii");
    obs.label_if(out.split(['|', '-', '(', ')']).filter(|p| !p.is_empty()).count() >= o.max, "phoneme limit reached");
}

fn check_embedded(c: &EncCase, obs: &mut Obs) -> CheckResult {
    let s = shipped();
    let got = encoder(embedded(), &c.o).encode(&c.text);
    let want = s.any_model.encode(&c.o, &c.text);
    ensure_eq!(got, want, "embedded rules, {:?}, encode({:?})", c.o, c.text);
    obs.evals(1);
    note(&c.o, &want, &c.text, obs);
    Ok(())
}

fn check_full(c: &EncCase, obs: &mut Obs) -> CheckResult {
    let s = shipped();
    let got = encoder(full(), &c.o).encode(&c.text);
    let want = s.model.encode(&c.o, &c.text);
    ensure_eq!(got, want, "commons-codec rules, {:?}, encode({:?})", c.o, c.text);
    obs.evals(1);
    note(&c.o, &want, &c.text, obs);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct LangCase {
    pub o: Opts,
    pub text: String,
    /// indexes in the languages of the name type
    pub langs: BTreeSet<u8>,
    pub any: bool,
    pub none_as_set: bool,
}

fn lang_case() -> BoxedStrategy<LangCase> {
    (enc_case(), btree_set(0u8..20, 0..5), prop::bool::weighted(0.1), any::<bool>())
        .prop_map(|(c, langs, any, none_as_set)| LangCase { o: c.o, text: c.text, langs, any, none_as_set })
        .boxed()
}

pub fn to_cut(l: &Ls, none_as_set: bool) -> LanguageSet {
    match l {
        Ls::Any => LanguageSet::Any,
        Ls::Of(s) if s.is_empty() && !none_as_set => LanguageSet::NoLanguages,
        Ls::Of(s) => LanguageSet::from(s.iter().map(|x| x.as_str()).collect::<Vec<_>>()),
    }
}

fn check_with_languages(c: &LangCase, obs: &mut Obs) -> CheckResult {
    let s = shipped();
    let all: Vec<&String> = s.model.languages[c.o.nt.name()].iter().collect();
    let ls = if c.any {
        Ls::Any
    } else {
        // now and then one the configuration does not know
        Ls::Of(c.langs.iter().map(|i| if *i >= 18 { "klingon".to_string() } else { all[*i as usize % all.len()].clone() }).collect())
    };
    let cut = to_cut(&ls, c.none_as_set);
    let got = encoder(full(), &c.o).encode_with_languages(&c.text, &cut);
    let want = s.model.encode_with(&c.o, &c.text, &ls);
    ensure_eq!(got, want, "commons-codec rules, {:?}, encode_with_languages({:?}, {:?})", c.o, c.text, cut);
    // leaving the choice to the encoder is choosing the guessed languages
    let guessed = s.model.guess(c.o.nt, &c.text);
    let a = encoder(full(), &c.o).encode(&c.text);
    let b = encoder(full(), &c.o).encode_with_languages(&c.text, &to_cut(&guessed, true));
    ensure_eq!(a, b, "encode({:?}) and encode_with_languages with the detected {guessed:?}, {:?}", c.text, c.o);
    obs.evals(2);
    note(&c.o, &want, &c.text, obs);
    obs.label_if(matches!(&ls, Ls::Of(s) if s.len() == 1), "one language");
    obs.label_if(matches!(&ls, Ls::Of(s) if s.is_empty()), "no language");
    Ok(())
}

/// Every first-stage rule of the shipped files, in turn.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RuleCase {
    pub nt: Nt,
    pub text: String,
}

fn rule_case(i: u64) -> RuleCase {
    let sizes: Vec<usize> = Nt::ALL.iter().map(|n| seeds(*n).rules.len()).collect();
    let total: usize = sizes.iter().sum();
    let round = i / total as u64;
    let mut k = (i % total as u64) as usize;
    let mut nt = Nt::Ash;
    for (n, s) in Nt::ALL.iter().zip(&sizes) {
        if k < *s {
            nt = *n;
            break;
        }
        k -= s;
    }
    let text = rule_text(&seeds(nt).rules[k], round.wrapping_mul(0x9E37) + k as u64);
    RuleCase { nt, text }
}

fn rules_total() -> u64 {
    Nt::ALL.iter().map(|n| seeds(*n).rules.len() as u64).sum()
}

fn check_rule(c: &RuleCase, obs: &mut Obs) -> CheckResult {
    let s = shipped();
    for rt in [Rt::Approx, Rt::Exact] {
        let o = Opts { nt: c.nt, rt, concat: true, max: 20 };
        let got = encoder(full(), &o).encode(&c.text);
        let want = s.model.encode(&o, &c.text);
        ensure_eq!(got, want, "commons-codec rules, {o:?}, encode({:?})", c.text);
        let got = encoder(embedded(), &o).encode(&c.text);
        let want = s.any_model.encode(&o, &c.text);
        ensure_eq!(got, want, "embedded rules, {o:?}, encode({:?})", c.text);
        obs.nontrivial_if(!want.is_empty());
    }
    obs.evals(4);
    Ok(())
}

// ---------------------------------------------------------------- generated configurations

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum GLine {
    Rule([String; 4]),
    /// index of an included file
    Include(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct GFile {
    pub lines: Vec<GLine>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct GCfg {
    pub nt: Nt,
    /// number of languages beside "any"
    pub langs: u8,
    pub detection: Vec<(String, BTreeSet<u8>, bool)>,
    /// in the order of `names()`
    pub files: Vec<GFile>,
    pub included: Vec<GFile>,
    /// "any" is not declared (unless there is no other language)
    #[serde(default)]
    pub without_any: bool,
    /// which names the included files have
    #[serde(default)]
    pub named: u8,
}

const LANGS: &[&str] = &["alpha", "Beta", "g"];
/// The names of the included files, one line per configuration.
const INCLUDED: &[[&str; 3]] = &[["shared", "part-2", "x_common"], ["règles", "UPPER_9", "7"], ["общие", "-", "_"], ["truefalse", "include", "gen"], ["shared", "shared2", "Shared"]];

fn is_included(name: &str) -> bool {
    INCLUDED.iter().any(|names| names.contains(&name))
}
const GCHARS: &[&str] = &["a", "b", "c", "d", "é", "ж", "中", "😀", "'", "e"];

fn lang_name(i: u8) -> &'static str {
    static MORE: OnceLock<Vec<String>> = OnceLock::new();
    match i as usize {
        0 => "any",
        i if i <= LANGS.len() => LANGS[i - 1],
        4 => "delta",
        i => {
            let more = MORE.get_or_init(|| {
                (0..256usize)
                    .map(|i| format!("l{}{}", char::from(b'a' + (i / 26) as u8), char::from(b'a' + (i % 26) as u8)))
                    .collect()
            });
            &more[i]
        }
    }
}

impl GCfg {
    fn languages(&self) -> Vec<&'static str> {
        (u8::from(self.without_any).min(self.langs)..=self.langs).map(lang_name).collect()
    }
    /// the rule files the name type needs
    fn names(&self) -> Vec<String> {
        let n = self.nt.name();
        let mut v = vec![];
        for l in self.languages() {
            for k in ["rules", "approx", "exact"] {
                v.push(format!("{n}_{k}_{l}"));
            }
        }
        for k in ["approx", "exact"] {
            v.push(format!("{n}_{k}_common"));
        }
        v
    }
    fn file(&self, i: usize) -> GFile {
        self.files.get(i).cloned().unwrap_or(GFile { lines: vec![] })
    }
    fn included_names(&self) -> [&'static str; 3] {
        INCLUDED[self.named as usize % INCLUDED.len()]
    }
    fn included_name(&self, i: u8) -> &'static str {
        self.included_names()[i as usize % 3]
    }
    fn model_file(&self, f: &GFile) -> Result<RuleMap, String> {
        let mut m: RuleMap = BTreeMap::new();
        for l in &f.lines {
            match l {
                GLine::Rule([a, b, c, d]) => {
                    let r = MRule::new(a, b, c, d)?;
                    m.entry(r.pattern[0]).or_default().push(r);
                }
                GLine::Include(i) => {
                    let k = *i as usize % 3;
                    let f = self.included.get(k).cloned().unwrap_or(GFile { lines: vec![] });
                    m.extend(self.model_file(&f)?);
                }
            }
        }
        Ok(m)
    }
    pub fn model(&self) -> Result<Config, String> {
        let mut c = Config::default();
        for nt in Nt::ALL {
            c.languages.insert(nt.name(), BTreeSet::from(["any".to_string()]));
            c.detection.insert(nt.name(), vec![]);
        }
        c.languages.insert(self.nt.name(), self.languages().iter().map(|s| s.to_string()).collect());
        let mut det = vec![];
        for (p, l, accept) in &self.detection {
            det.push(LangRule {
                pattern: regex::Regex::new(p).map_err(|e| e.to_string())?,
                languages: l.iter().map(|i| lang_name(*i).to_string()).collect(),
                accept: *accept,
            });
        }
        c.detection.insert(self.nt.name(), det);
        for (i, n) in self.names().into_iter().enumerate() {
            c.rules.insert(n, self.model_file(&self.file(i))?);
        }
        Ok(c)
    }
    /// file name (without extension) -> item lines
    pub fn texts(&self) -> BTreeMap<String, Vec<String>> {
        let mut out = BTreeMap::new();
        for nt in Nt::ALL {
            let n = nt.name();
            out.insert(format!("{n}_languages"), vec!["any".to_string()]);
            out.insert(format!("{n}_lang"), vec![]);
            for f in ["rules_any", "approx_any", "exact_any", "approx_common", "exact_common"] {
                out.insert(format!("{n}_{f}"), vec![]);
            }
        }
        let n = self.nt.name();
        out.insert(format!("{n}_languages"), self.languages().iter().map(|s| s.to_string()).collect());
        out.insert(
            format!("{n}_lang"),
            self.detection
                .iter()
                .map(|(p, l, a)| {
                    let l: Vec<&str> = l.iter().map(|i| lang_name(*i)).collect();
                    format!("{p} {} {a}", l.join("+"))
                })
                .collect(),
        );
        let render = |f: &GFile| -> Vec<String> {
            f.lines
                .iter()
                .map(|l| match l {
                    GLine::Rule([a, b, c, d]) => format!("\"{a}\" \"{b}\" \"{c}\" \"{d}\""),
                    GLine::Include(i) => format!("#include {}", self.included_name(*i)),
                })
                .collect()
        };
        for (i, n) in self.names().into_iter().enumerate() {
            out.insert(n, render(&self.file(i)));
        }
        for (i, n) in self.included_names().iter().enumerate() {
            let f = self.included.get(i).cloned().unwrap_or(GFile { lines: vec![] });
            out.insert(n.to_string(), render(&f));
        }
        out
    }
}

/// A scratch directory removed at the end.
pub struct Scratch(pub PathBuf);

pub fn scratch_root() -> PathBuf {
    static C: OnceLock<PathBuf> = OnceLock::new();
    C.get_or_init(|| {
        let name = format!("vharness-{}", std::process::id());
        // in memory when possible
        let shm = Path::new("/dev/shm").join(&name);
        if std::fs::create_dir_all(&shm).is_ok() {
            return shm;
        }
        std::env::temp_dir().join(name)
    })
    .clone()
}

/// Remove what a process (this one, or a child that died) left.
pub fn remove_scratch(pid: u32) {
    for root in [PathBuf::from("/dev/shm"), std::env::temp_dir()] {
        let _ = std::fs::remove_dir_all(root.join(format!("vharness-{pid}")));
    }
}

impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = scratch_root().join(N.fetch_add(1, Ordering::Relaxed).to_string());
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    pub fn write(&self, name: &str, content: &str) {
        std::fs::write(self.0.join(format!("{name}.txt")), content).expect("scratch file");
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn write_plain(texts: &BTreeMap<String, Vec<String>>) -> Scratch {
    let d = Scratch::new();
    for (n, l) in texts {
        let mut t = l.join("\n");
        if !l.is_empty() {
            t.push('\n');
        }
        d.write(n, &t);
    }
    d
}

fn pieces(max: usize) -> BoxedStrategy<String> {
    vec(select(GCHARS), 1..=max).prop_map(|v| v.concat()).boxed()
}

fn class() -> BoxedStrategy<String> {
    (any::<bool>(), vec(select(vec!["a", "b", "c", "é", "ж", "中", "e"]), 1..4))
        .prop_map(|(n, v)| format!("[{}{}]", if n { "^" } else { "" }, v.concat()))
        .boxed()
}

fn regex_ctx() -> BoxedStrategy<String> {
    let atom = prop_oneof![
        3 => class(),
        1 => select(vec!["a", "b", "é", ".", "(a|b)", "[ab]?", "b*", "(a|[bc])"]).prop_map(String::from),
    ];
    // a class somewhere, so that it is read as an expression
    (vec(atom.clone(), 1..3), class(), any::<bool>())
        .prop_map(|(v, c, front)| if front { format!("{c}{}", v.concat()) } else { format!("{}{c}", v.concat()) })
        .boxed()
}

fn context(left: bool) -> BoxedStrategy<String> {
    prop_oneof![
        5 => Just(String::new()),
        3 => (prop_oneof![6 => pieces(2), 6 => class(), 4 => regex_ctx(), 4 => Just(String::new()), 1 => select(vec!["//", "*/", "=", "b ", "#", "1", "-", "a b"]).prop_map(String::from)], any::<bool>())
            .prop_map(move |(t, anchored)| match (anchored, left) {
                (false, _) => t,
                (true, true) => format!("^{t}"),
                (true, false) => format!("{t}$"),
            }),
    ]
    .boxed()
}

fn phoneme(langs: u8) -> BoxedStrategy<String> {
    let text = prop_oneof![1 => Just(String::new()), 5 => pieces(2), 2 => select(vec!["S", "tS", "x", "1"]).prop_map(String::from), 1 => select(vec!["//", "*/", "/*", "=", "#", "a b", "-", "\t", "'", "A//B", "^", "."]).prop_map(String::from)];
    (text, proptest::option::weighted(0.4, btree_set(0..=langs, 1..3)))
        .prop_map(|(t, l)| match l {
            None => t,
            Some(l) => {
                let l: Vec<&str> = l.iter().map(|i| lang_name(*i)).collect();
                format!("{t}[{}]", l.join("+"))
            }
        })
        .boxed()
}

fn expr(langs: u8) -> BoxedStrategy<String> {
    prop_oneof![
        2 => phoneme(langs),
        2 => vec(phoneme(langs), 1..5).prop_map(|v| format!("({})", v.join("|"))),
    ]
    .boxed()
}

fn grule(langs: u8) -> BoxedStrategy<GLine> {
    let special = select(vec!["//", "/*", "*/", "=", "#", "1", "\\\"", "a b", "b ", "-", "(", "a|b", "[a]", ".", "A", "É"]).prop_map(String::from);
    (prop_oneof![24 => pieces(3), 1 => special], context(true), context(false), expr(langs))
        .prop_map(|(p, l, r, e)| GLine::Rule([p, l, r, e]))
        .boxed()
}

fn gfile(langs: u8, max: usize, include: u32) -> BoxedStrategy<GFile> {
    let line = prop_oneof![
        14 => grule(langs),
        include => (0u8..3).prop_map(GLine::Include),
    ];
    vec(line, 0..max).prop_map(|lines| GFile { lines }).boxed()
}

fn identity(langs: u8) -> GFile {
    let _ = langs;
    GFile {
        lines: GCHARS.iter().map(|c| GLine::Rule([c.to_string(), String::new(), String::new(), c.to_string()])).collect(),
    }
}

fn detection(langs: u8) -> BoxedStrategy<(String, BTreeSet<u8>, bool)> {
    let p = prop_oneof![
        3 => pieces(2),
        1 => pieces(2).prop_map(|p| format!("^{p}")),
        1 => pieces(1).prop_map(|p| format!("{p}$")),
        1 => class(),
        1 => (pieces(1), pieces(1)).prop_map(|(a, b)| format!("({a}|{b})")),
        1 => (pieces(1), pieces(1)).prop_map(|(a, b)| format!("{a}.*{b}")),
    ];
    (p, btree_set(0..=langs, 1..4), any::<bool>()).boxed()
}

/// The smallest configuration.
pub fn gcfg_empty() -> GCfg {
    GCfg { nt: Nt::Gen, langs: 0, detection: vec![], files: vec![], included: vec![], without_any: false, named: 0 }
}

pub fn gcfg() -> BoxedStrategy<GCfg> {
    (select(&Nt::ALL[..]), 0u8..=3)
        .prop_flat_map(|(nt, langs)| {
            let n = 3 * (langs as usize + 1) + 2;
            (
                vec(detection(langs), 0..5),
                vec(prop_oneof![6 => gfile(langs, 7, 1), 2 => Just(identity(langs)), 1 => Just(GFile { lines: vec![] })], n),
                // included files include at most the next one: no cycle
                (gfile(langs, 4, 0), gfile(langs, 3, 0), gfile(langs, 2, 0), any::<[bool; 2]>()),
                prop::bool::weighted(0.1),
                prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
            )
                .prop_map(move |(detection, files, (mut a, mut b, c, nest), without_any, named)| {
                    if nest[0] {
                        a.lines.insert(0, GLine::Include(1));
                    }
                    if nest[1] {
                        b.lines.push(GLine::Include(2));
                    }
                    GCfg { nt, langs, detection, files, included: vec![a, b, c], without_any, named }
                })
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct GenCase {
    pub cfg: GCfg,
    pub texts: Vec<String>,
    pub rt: Rt,
    pub concat: bool,
    pub max: usize,
    pub langs: BTreeSet<u8>,
}

pub fn gtext() -> BoxedStrategy<String> {
    let piece = prop_oneof![
        10 => select(GCHARS).prop_map(String::from),
        1 => select(vec!["A", "B", "É", "Ж", " ", "-", "x", " da ", "de la ", "ben ", "^", "$", "]", ".", "//", "/*", "*/", "=", "#", "1", "\\\"", "(", "a|b", "[a]", "a b"]).prop_map(String::from),
    ];
    (proptest::option::weighted(0.1, select(PARTICLES)), vec(piece, 0..8))
        .prop_map(|(p, v)| format!("{}{}", p.unwrap_or(""), v.concat()))
        .boxed()
}

fn gen_case() -> BoxedStrategy<GenCase> {
    (
        gcfg(),
        vec(gtext(), 1..6),
        vec((any::<u16>(), any::<u64>()), 0..6),
        select(vec![Rt::Approx, Rt::Exact]),
        prop::bool::weighted(0.8),
        prop_oneof![4 => 1usize..6, 4 => Just(20usize), 2 => Just(200usize), 1 => Just(0usize)],
        btree_set(0u8..4, 0..3),
    )
        .prop_map(|(cfg, mut texts, dir, rt, concat, max, langs)| {
            // texts directed at the rules of the first-stage files
            let rules: Vec<(String, String, String)> = cfg
                .files
                .iter()
                .chain(&cfg.included)
                .flat_map(|f| &f.lines)
                .filter_map(|l| match l {
                    GLine::Rule([p, a, b, _]) => Some((a.clone(), p.clone(), b.clone())),
                    _ => None,
                })
                .collect();
            if !rules.is_empty() {
                for (i, k) in dir {
                    texts.push(rule_text(&rules[i as usize % rules.len()], k));
                }
            }
            GenCase { cfg, texts, rt, concat, max, langs }
        })
        .boxed()
}

/// Small rule files whose alternatives can be joined to one text in several ways, each way with
/// its own languages, under a small limit.
fn joins_case() -> BoxedStrategy<GenCase> {
    (select(&Nt::ALL[..]), 1u8..=3)
        .prop_flat_map(|(nt, langs)| {
            let alt = (select(vec!["", "x", "x", "y", "xx", "xy", "yx"]), proptest::option::weighted(0.6, btree_set(1..=langs, 1..3)))
                .prop_map(|(t, l)| match l {
                    None => t.to_string(),
                    Some(l) => format!("{t}[{}]", l.iter().map(|i| lang_name(*i)).collect::<Vec<_>>().join("+")),
                });
            let rule = |cs: Vec<&'static str>| {
                (select(cs), vec(alt.clone(), 1..5)).prop_map(|(p, v)| {
                    let e = if v.len() == 1 { v[0].clone() } else { format!("({})", v.join("|")) };
                    GLine::Rule([p.to_string(), String::new(), String::new(), e])
                })
            };
            let main = vec(rule(vec!["a", "b", "c", "ab", "bc"]), 3..7).prop_map(|lines| GFile { lines });
            let end = prop_oneof![
                2 => Just(GFile { lines: vec![] }),
                2 => Just(GFile { lines: ["x", "y"].iter().map(|c| GLine::Rule([c.to_string(), String::new(), String::new(), c.to_string()])).collect() }),
                3 => vec(rule(vec!["x", "y", "xx", "xy"]), 1..5).prop_map(|lines| GFile { lines }),
            ];
            let n = langs as usize + 1;
            (
                vec(main, n),
                vec(end, 2 * n + 2),
                vec(vec(select(vec!["a", "b", "c"]), 1..6), 1..5),
                select(vec![Rt::Approx, Rt::Exact]),
                prop_oneof![6 => 1usize..8, 1 => Just(20usize)],
                btree_set(1..=langs, 0..4),
            )
                .prop_map(move |(main, end, texts, rt, max, ls)| {
                    let mut files = vec![];
                    for (i, m) in main.into_iter().enumerate() {
                        files.push(m);
                        files.push(end[2 * i].clone());
                        files.push(end[2 * i + 1].clone());
                    }
                    files.extend(end[2 * n..].iter().cloned());
                    GenCase {
                        cfg: GCfg { nt, langs, detection: vec![], files, included: vec![], without_any: false, named: 0 },
                        texts: texts.into_iter().map(|v| v.concat()).collect(),
                        rt,
                        concat: true,
                        max,
                        langs: ls,
                    }
                })
        })
        .boxed()
}

/// Contexts that look far away from the pattern, and texts long enough for it.
fn far_case() -> BoxedStrategy<GenCase> {
    let ch = || select(vec!["a", "b", "c", "é", "ж"]);
    let ctx = move |left: bool| {
        let star = (ch(), ch(), ch()).prop_map(|(x, y, z)| [x, y, z]);
        (star, 0u8..9, 2usize..40, any::<bool>()).prop_map(move |([x, y, z], kind, n, anchored)| {
            let body = match (kind, left) {
                (0, _) => return String::new(),
                (1, true) => format!("[{y}][{x}]*"),
                (1, false) => format!("[{x}]*[{y}]"),
                (2, true) => format!("[{y}{z}][^{y}]*"),
                (2, false) => format!("[^{y}]*[{y}{z}]"),
                (3, true) => format!("{y}[{x}{z}]{{{n}}}"),
                (3, false) => format!("[{x}{z}]{{{n}}}{y}"),
                (4, true) => format!("{y}{}", x.repeat(n)),
                (4, false) => format!("{}{y}", x.repeat(n)),
                (5, _) => format!("[{x}{y}]*"),
                (6, _) => x.repeat(n),
                (7, true) => format!("[{x}]{y}.*"),
                (7, false) => format!(".*{y}[{x}]"),
                (_, true) => format!("[{x}].{{{n}}}"),
                (_, false) => format!(".{{{n}}}[{x}]"),
            };
            match (anchored, left) {
                (false, _) => body,
                (true, true) => format!("^{body}"),
                (true, false) => format!("{body}$"),
            }
        })
    };
    let out = || select(vec!["", "a", "b", "x", "é", "(x|y)", "(a|)"]);
    let pattern = (ch(), 1usize..3, any::<u8>()).prop_map(|(c, n, k)| if k < 40 { c.repeat(2 + k as usize) } else { c.repeat(n) });
    let rule = (pattern, ctx(true), ctx(false), out()).prop_map(|(p, l, r, e)| GLine::Rule([p, l, r, e.to_string()]));
    let file = move |max: usize| {
        (vec(rule.clone(), 1..max), any::<bool>()).prop_map(|(mut lines, all)| {
            // then a rule for each letter
            if all {
                lines.extend(["a", "b", "c", "é", "ж"].iter().map(|c| GLine::Rule([c.to_string(), String::new(), String::new(), if *c == "c" { String::new() } else { c.to_string() }])));
            }
            GFile { lines }
        })
    };
    let text = vec((ch(), prop_oneof![3 => 1usize..4, 2 => 4usize..50]), 1..7).prop_map(|v| v.into_iter().map(|(c, n)| c.repeat(n)).collect::<String>());
    (select(&Nt::ALL[..]), file(8), prop_oneof![1 => Just(GFile { lines: vec![] }), 2 => file(5).boxed()], vec(text, 1..6), select(vec![Rt::Approx, Rt::Exact]), select(vec![1usize, 2, 3, 20]))
        .prop_map(|(nt, main, end, texts, rt, max)| {
            let cfg = GCfg { nt, langs: 0, detection: vec![], files: vec![main, end.clone(), end.clone(), end.clone(), end], included: vec![], without_any: false, named: 0 };
            GenCase { cfg, texts, rt, concat: true, max, langs: BTreeSet::new() }
        })
        .boxed()
}

/// Many languages, many detection rules, many rules for one letter, many alternatives.
fn large_case() -> BoxedStrategy<GenCase> {
    let langs = prop_oneof![8 => 0u8..4, 12 => 4u8..24, 3 => 24u8..60, 1 => 60u8..140];
    (select(&Nt::ALL[..]), langs)
        .prop_flat_map(|(nt, langs)| {
            let several = move || prop_oneof![3 => btree_set(0..=langs, 1..3), 1 => btree_set(0..=langs, 1..(langs as usize + 2))];
            let named = |l: &BTreeSet<u8>| l.iter().map(|i| lang_name(*i)).collect::<Vec<_>>().join("+");
            let alt = (pieces(2), proptest::option::weighted(0.3, several())).prop_map(move |(t, l)| match l {
                None => t,
                Some(l) => format!("{t}[{}]", named(&l)),
            });
            let e = prop_oneof![
                3 => alt.clone(),
                2 => vec(alt.clone(), 1..5).prop_map(|v| format!("({})", v.join("|"))),
                1 => vec(alt, 5..70).prop_map(|v| format!("({})", v.join("|"))),
            ];
            let rule = (select(vec!["a", "b", "é"]), prop_oneof![1 => Just(String::new()), 4 => pieces(3)], context(true), context(false), e)
                .prop_map(|(first, p, l, r, e)| GLine::Rule([format!("{first}{p}"), l, r, e]));
            let file = prop_oneof![24 => vec(rule.clone(), 0..4).prop_map(|mut lines| {
                lines.extend(identity(0).lines);
                GFile { lines }
            }), 2 => vec(rule.clone(), 4..150).prop_map(|lines| GFile { lines }), 1 => vec(rule, 150..700).prop_map(|lines| GFile { lines })];
            let det = (detection(0), several(), prop::bool::weighted(0.3)).prop_map(|((p, ..), l, accept)| (p, l, accept));
            let n = 3 * (langs as usize + 1) + 2;
            (
                vec(det, 0..40),
                vec(file, n),
                vec(gtext(), 1..4),
                vec((any::<u16>(), any::<u64>()), 1..8),
                select(vec![Rt::Approx, Rt::Exact]),
                prop_oneof![3 => 1usize..20, 3 => 20usize..60, 1 => 60usize..200],
                several(),
            )
                .prop_map(move |(detection, files, mut texts, dir, rt, max, ls)| {
                    let rules: Vec<(String, String, String)> = files
                        .iter()
                        .flat_map(|f| &f.lines)
                        .filter_map(|l| match l {
                            GLine::Rule([p, a, b, _]) => Some((a.clone(), p.clone(), b.clone())),
                            _ => None,
                        })
                        .collect();
                    if !rules.is_empty() {
                        for (i, k) in dir {
                            texts.push(rule_text(&rules[i as usize % rules.len()], k));
                        }
                    }
                    for t in &mut texts {
                        *t = t.chars().take(6).collect();
                    }
                    GenCase { cfg: GCfg { nt, langs, detection, files, included: vec![], without_any: false, named: 0 }, texts, rt, concat: true, max, langs: ls }
                })
        })
        .boxed()
}

/// Patterns and phonemes of hundreds of characters.
fn huge_case() -> BoxedStrategy<GenCase> {
    let ch = || select(vec!["a", "b", "c", "é"]);
    let size = || prop_oneof![3 => 1usize..5, 1 => 60usize..200, 3 => select(vec![127usize, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600])];
    let run = move || (ch(), size(), proptest::option::of(ch())).prop_map(|(c, n, end)| format!("{}{}", c.repeat(n), end.unwrap_or("")));
    // what stands for a short pattern is short: else the code would be too long
    let out = || {
        prop_oneof![
            2 => select(vec!["", "a", "b", "x", "é", "(x|y)"]).prop_map(String::from),
            1 => run(),
            1 => (run(), run()).prop_map(|(a, b)| format!("({a}|{b})")),
        ]
    };
    let rule = move || {
        (run(), out(), select(vec!["", "a", "b", "x", "é"])).prop_map(|(p, e, short)| {
            let e = if p.chars().count() < 60 { short.to_string() } else { e };
            GLine::Rule([p, String::new(), String::new(), e])
        })
    };
    let file = move |max: usize| {
        vec(rule(), 1..max).prop_map(|mut lines| {
            lines.extend(["a", "b", "c", "é"].iter().map(|c| GLine::Rule([c.to_string(), String::new(), String::new(), c.to_string()])));
            GFile { lines }
        })
    };
    (
        select(&Nt::ALL[..]),
        file(6),
        prop_oneof![2 => Just(GFile { lines: vec![] }), 1 => file(4).boxed()],
        vec(vec((any::<u8>(), run()), 1..3), 1..4),
        select(vec![Rt::Approx, Rt::Exact]),
        select(vec![1usize, 3, 20]),
    )
        .prop_map(|(nt, main, end, raw, rt, max)| {
            let texts = raw
                .iter()
                .map(|t| {
                    t.iter()
                        .map(|(k, s)| match &main.lines[*k as usize / 4 % main.lines.len()] {
                            GLine::Rule([p, ..]) if k % 4 > 1 => p.clone(),
                            GLine::Rule([p, ..]) if k % 4 == 1 => p.chars().skip(1).collect(),
                            _ => s.clone(),
                        })
                        .collect::<String>()
                })
                .collect();
            let cfg = GCfg { nt, langs: 0, detection: vec![], files: vec![main, end.clone(), end.clone(), end.clone(), end], included: vec![], without_any: false, named: 0 };
            GenCase { cfg, texts, rt, concat: true, max, langs: BTreeSet::new() }
        })
        .boxed()
}

/// Thousands of alternatives, and limits of that order.
fn wide_case() -> BoxedStrategy<GenCase> {
    let alts = || vec(select(vec!["a", "b", "c", "d", "e", "é", "ж", "ab", "ba", "x", "", "a[alpha]", "b[alpha+Beta]", "x[Beta]"]), 2..9);
    let file = move || {
        vec(alts(), 4..=4).prop_map(|v| GFile {
            lines: v.iter().zip(["a", "b", "c", "é"]).map(|(v, c)| GLine::Rule([c.to_string(), String::new(), String::new(), format!("({})", v.join("|"))])).collect(),
        })
    };
    (
        select(&Nt::ALL[..]),
        file(),
        vec(vec(select(vec!["a", "b", "c", "é"]), 2..9), 1..3),
        select(vec![Rt::Approx, Rt::Exact]),
        prop_oneof![
            1 => 20usize..400,
            4 => select(vec![63usize, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1024]),
            2 => select(vec![2000usize, 4096, 10_000, 65_536, 100_000, usize::MAX]),
        ],
    )
        .prop_map(|(nt, main, raw, rt, max)| {
            let texts = raw
                .iter()
                .map(|t| {
                    // at most 3,000 alternatives
                    let mut n = 1usize;
                    t.iter()
                        .take_while(|c| {
                            let k = main.lines.iter().find_map(|l| match l {
                                GLine::Rule([p, _, _, e]) if p == *c => Some(e.split('|').count()),
                                _ => None,
                            });
                            n = n.saturating_mul(k.unwrap_or(1));
                            n <= 3000
                        })
                        .copied()
                        .collect::<String>()
                })
                .collect();
            let cfg = GCfg { nt, langs: 2, detection: vec![], files: vec![main], included: vec![], without_any: false, named: 0 };
            GenCase { cfg, texts, rt, concat: true, max, langs: BTreeSet::new() }
        })
        .boxed()
}

fn check_gen(c: &GenCase, obs: &mut Obs) -> CheckResult {
    let model = c.cfg.model().map_err(|e| format!("INTERNAL panic: {e}"))?;
    let texts = c.cfg.texts();
    let d = write_plain(&texts);
    let cfg = ConfigFiles::new(&d.0).map_err(|e| format!("valid configuration rejected: {e}\n{texts:?}"))?;
    drop(d);
    let o = Opts { nt: c.cfg.nt, rt: c.rt, concat: c.concat, max: c.max };
    let e = encoder(&cfg, &o);
    let ls = Ls::Of(c.langs.iter().map(|i| lang_name(*i).to_string()).collect());
    for t in &c.texts {
        let want = model.encode(&o, t);
        ensure_eq!(e.encode(t), want, "generated rules, {o:?}, encode({t:?})");
        note(&o, &want, t, obs);
        let want = model.encode_with(&o, t, &ls);
        ensure_eq!(e.encode_with_languages(t, &to_cut(&ls, true)), want, "generated rules, {o:?}, encode_with_languages({t:?}, {ls:?})");
        obs.evals(2);
    }
    Ok(())
}

// ---------------------------------------------------------------- language detection

/// A configuration whose codes spell the languages that are still possible.
pub struct Probe {
    cfg: ConfigFiles,
    model: Config,
}

const PROBE_CHARS: &str = "abcdefghijklmnopqrstuvwxyz'’";

/// Rules files in which every text starting with a letter encodes to the remaining languages.
fn probe_files(nt: &str, langs: &[String]) -> BTreeMap<String, Vec<String>> {
    let mut out = BTreeMap::new();
    let code = |l: &str| l.to_string();
    let mut any = vec![];
    // the marker character, placed first by the check
    let alts: Vec<String> = langs.iter().map(|l| format!("{}[{l}]", code(l))).collect();
    any.push(format!("\"{MARK}\" \"\" \"\" \"({})\"", alts.join("|")));
    for l in langs {
        let v = if l == "any" {
            any.clone()
        } else {
            vec![format!("\"{MARK}\" \"\" \"\" \"only-{}\"", code(l))]
        };
        out.insert(format!("{nt}_rules_{l}"), v);
        out.insert(format!("{nt}_approx_{l}"), vec![]);
        out.insert(format!("{nt}_exact_{l}"), vec![]);
    }
    out.insert(format!("{nt}_approx_common"), vec![]);
    out.insert(format!("{nt}_exact_common"), vec![]);
    out
}

/// A character no detection rule mentions.
const MARK: char = '¤';

fn probe_expected(l: &Ls, all: &[String]) -> String {
    match l {
        Ls::Any => {
            let mut v: Vec<String> = all.to_vec();
            v.sort();
            v.join("|")
        }
        Ls::Of(s) if s.len() == 1 => {
            let only = s.iter().next().cloned().unwrap_or_default();
            if only == "any" {
                "any".into()
            } else {
                format!("only-{only}")
            }
        }
        Ls::Of(s) => s.iter().cloned().collect::<Vec<_>>().join("|"),
    }
}

fn probe() -> &'static Probe {
    static C: OnceLock<Probe> = OnceLock::new();
    C.get_or_init(|| {
        let model = shipped().model.clone();
        let d = Scratch::new();
        for nt in Nt::ALL {
            let n = nt.name();
            let langs: Vec<String> = model.languages[n].iter().cloned().collect();
            for (f, l) in probe_files(n, &langs) {
                d.write(&f, &(l.join("\n") + "\n"));
            }
            for f in ["lang", "languages"] {
                let f = format!("{n}_{f}.txt");
                std::fs::copy(data_dir().join(&f), d.0.join(&f)).expect("copy");
            }
        }
        let cfg = match ConfigFiles::new(&d.0) {
            Ok(c) => c,
            Err(e) => panic!("VIOLATES: a valid configuration is refused: {e}"),
        };
        Probe { cfg, model }
    })
}

/// The marked text: the marker goes where no `^`/`$` expression sees a difference — it replaces
/// nothing and stands in a word of its own that detection ignores.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct DetectCase {
    nt: Nt,
    text: String,
    at: u8,
}

fn marked(text: &str, at: u8) -> String {
    let v: Vec<char> = text.chars().collect();
    let k = at as usize % (v.len() + 1);
    let mut s: String = v[..k].iter().collect();
    s.push(MARK);
    s.extend(&v[k..]);
    s
}

fn check_detect(c: &DetectCase, obs: &mut Obs) -> CheckResult {
    let p = probe();
    let n = c.nt.name();
    let all: Vec<String> = p.model.languages[n].iter().cloned().collect();
    let text = marked(&c.text, c.at);
    // Only texts taken as one block: the marked text is what detection sees
    if c.nt == Nt::Gen && starts_with_particle(&text) {
        return Ok(());
    }
    let o = Opts { nt: c.nt, rt: Rt::Exact, concat: true, max: 1000 };
    let kept = marker_survives(&text, c.nt);
    let guess = p.model.guess(c.nt, &text);
    let want = if kept { probe_expected(&guess, &all) } else { String::new() };
    let got = encoder(&p.cfg, &o).encode(&text);
    ensure_eq!(got, want, "languages detected in {text:?} ({n})");
    // case does not matter
    let up = text.to_uppercase();
    if up.to_lowercase() == text.to_lowercase() {
        ensure_eq!(encoder(&p.cfg, &o).encode(&up), want, "languages detected in {up:?} ({n})");
    }
    obs.evals(2);
    obs.nontrivial_if(kept && guess != p.model.guess(c.nt, "") && !matches!(guess, Ls::Any));
    obs.label(match &guess {
        Ls::Any => "contradictory: any",
        Ls::Of(s) if s.len() == 1 => "one language",
        Ls::Of(s) if s.len() < all.len() => "several languages",
        Ls::Of(_) => "all languages",
    });
    Ok(())
}

fn starts_with_particle(text: &str) -> bool {
    let t = text.to_lowercase().replace('-', " ");
    let t = t.trim();
    t.starts_with("d'")
        || [
            "da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do", "dos", "du", "van", "von",
        ]
        .iter()
        .any(|p| t.starts_with(&format!("{p} ")))
}

fn marker_survives(text: &str, nt: Nt) -> bool {
    if nt != Nt::Sep {
        return true;
    }
    // Sephardic names keep what follows the last apostrophe of each word
    text.to_lowercase()
        .replace('-', " ")
        .split_whitespace()
        .any(|w| w.rsplit('\'').next().is_some_and(|w| w.contains(MARK)))
}

fn detect_case() -> BoxedStrategy<DetectCase> {
    select(&Nt::ALL[..])
        .prop_flat_map(|nt| {
            let s = seeds(nt);
            let d = move || {
                (0..s.detection.len(), any::<u64>())
                    .prop_map(move |(i, k)| sample_regex(&s.detection[i], &mut picker(k)))
            };
            let letter = || select(PROBE_CHARS.chars().collect::<Vec<_>>()).prop_map(|c| c.to_string());
            let piece = prop_oneof![
                5 => d(), 3 => letter(), 1 => gen::odd(), 1 => select(gen::NAMES).prop_map(String::from), 1 => gen::punct()
            ];
            (vec(piece, 1..4), any::<u8>(), 0u8..5, any::<u64>())
                .prop_map(move |(v, at, m, k)| DetectCase { nt, text: gen::recase(&v.concat(), m, k), at })
        })
        .boxed()
}

/// Generated detection rules.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct GenDetectCase {
    nt: Nt,
    langs: u8,
    rules: Vec<(String, BTreeSet<u8>, bool)>,
    texts: Vec<String>,
}

fn check_gen_detect(c: &GenDetectCase, obs: &mut Obs) -> CheckResult {
    let g = GCfg { nt: c.nt, langs: c.langs, detection: c.rules.clone(), files: vec![], included: vec![], without_any: false, named: 0 };
    let model = g.model().map_err(|e| format!("INTERNAL panic: {e}"))?;
    let mut texts = g.texts();
    let langs: Vec<String> = g.languages().iter().map(|s| s.to_string()).collect();
    texts.extend(probe_files(c.nt.name(), &langs));
    let d = write_plain(&texts);
    let cfg = ConfigFiles::new(&d.0).map_err(|e| format!("valid configuration rejected: {e}\n{texts:?}"))?;
    drop(d);
    let mut all = langs.clone();
    all.sort();
    for t in &c.texts {
        let t = format!("{MARK}{t}");
        if !marker_survives(&t, c.nt) {
            continue;
        }
        let o = Opts { nt: c.nt, rt: Rt::Approx, concat: true, max: 1000 };
        let guess = model.guess(c.nt, &t);
        ensure_eq!(encoder(&cfg, &o).encode(&t), probe_expected(&guess, &all), "languages detected in {t:?}");
        obs.eval();
        obs.nontrivial_if(c.rules.iter().any(|r| regex::Regex::new(&r.0).is_ok_and(|x| x.is_match(&t.to_lowercase()))));
        obs.label_if(matches!(guess, Ls::Any), "contradictory: any");
    }
    Ok(())
}

/// Many languages and rules, expressions that look far, long texts.
/// Files with more rules than a test would have.
fn many_detect_case() -> BoxedStrategy<GenDetectCase> {
    let count = prop_oneof![2 => 20usize..200, 4 => (select(vec![64usize, 128, 256, 512, 1000, 1024]), 0usize..5).prop_map(|(n, d)| n + d - 3), 1 => 200usize..2100];
    (select(&Nt::ALL[..]), 0u8..5, count)
        .prop_flat_map(|(nt, langs, count)| {
            let idle = (select(vec!["qqq", "x{9}", "^$"]), any::<bool>(), 0u8..=langs);
            (vec(detection(langs), 0..4), idle, vec(detection(langs), 1..4), vec(gtext(), 1..6)).prop_map(move |(mut rules, (p, accept, l), more, texts)| {
                rules.extend((0..count).map(|_| (p.to_string(), BTreeSet::from([l]), accept)));
                rules.extend(more);
                GenDetectCase { nt, langs, rules, texts }
            })
        })
        .boxed()
}

fn far_detect_case() -> BoxedStrategy<GenDetectCase> {
    (select(&Nt::ALL[..]), prop_oneof![0u8..4, 4u8..50])
        .prop_flat_map(|(nt, langs)| {
            let ch = || select(vec!["a", "b", "c", "é", "ж"]);
            let far = (ch(), ch(), 1usize..60, 0u8..9).prop_map(|(x, y, n, k)| match k {
                0 => format!("{x}{y}$"),
                1 => format!("^{x}.*{y}$"),
                2 => format!("{x}.{{{n}}}{y}"),
                3 => format!("^[^{x}]*$"),
                4 => format!("^[^{x}]{{{n}}}{x}"),
                5 => format!("{x}[^{x}]{{{n}}}$"),
                6 => x.repeat(n),
                7 => format!("^.{{{n},}}$"),
                _ => format!("({x}{y}|{y}{y}{y})$"),
            });
            let rule = (prop_oneof![3 => far, 1 => detection(0).prop_map(|d| d.0)], prop_oneof![2 => btree_set(0..=langs, 1..4), 2 => btree_set(0..=langs, 1..(langs as usize + 2))], any::<bool>());
            let text = vec((ch(), prop_oneof![3 => 1usize..4, 2 => 4usize..60]), 1..6).prop_map(|v| v.into_iter().map(|(c, n)| c.repeat(n)).collect::<String>());
            (prop_oneof![2 => vec(rule.clone(), 1..6), 1 => vec(rule, 6..60)], vec(text, 1..6)).prop_map(move |(rules, texts)| GenDetectCase { nt, langs, rules, texts })
        })
        .boxed()
}

fn gen_detect_case() -> BoxedStrategy<GenDetectCase> {
    (select(&Nt::ALL[..]), 0u8..=3)
        .prop_flat_map(|(nt, langs)| {
            (vec(detection(langs), 0..7), vec(gtext(), 1..8))
                .prop_map(move |(rules, texts)| GenDetectCase { nt, langs, rules, texts })
        })
        .boxed()
}

// ---------------------------------------------------------------- configuration files

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct LayoutCase {
    cfg: GCfg,
    /// noise put before lines, by turns
    noise: Vec<Vec<Noise>>,
    /// separators and trailing parts of quadruplets, by turns
    gaps: Vec<String>,
    trails: Vec<String>,
    crlf: bool,
    final_newline: bool,
    extra_files: bool,
    texts: Vec<String>,
}

fn spread(lines: &[String], c: &LayoutCase, turn: &mut usize) -> (Vec<String>, Vec<usize>) {
    let mut out = vec![];
    let mut at = vec![];
    for l in lines {
        *turn += 1;
        if !c.noise.is_empty() {
            for n in &c.noise[*turn % c.noise.len()] {
                noise_lines(n, &mut out);
            }
        }
        let mut l = l.clone();
        if l.starts_with('"') && !c.gaps.is_empty() {
            l = l.replace("\" \"", &format!("\"{}\"", c.gaps[*turn % c.gaps.len()]));
        }
        if !c.trails.is_empty() {
            l.push_str(&c.trails[*turn % c.trails.len()]);
        }
        out.push(l);
        at.push(out.len());
    }
    (out, at)
}

fn write_layout(c: &LayoutCase) -> Scratch {
    let d = Scratch::new();
    let mut turn = 0;
    for (n, l) in c.cfg.texts() {
        let (lines, _) = spread(&l, c, &mut turn);
        d.write(&n, &assemble(&lines, c.crlf, c.final_newline));
    }
    if c.extra_files {
        d.write("lang", "whatever");
        d.write("ash_unused_rules", "not a rule");
        std::fs::write(d.0.join("README.md"), "text").expect("scratch file");
        std::fs::create_dir_all(d.0.join("more")).expect("scratch directory");
    }
    d
}

fn check_layout(c: &LayoutCase, obs: &mut Obs) -> CheckResult {
    let model = c.cfg.model().map_err(|e| format!("INTERNAL panic: {e}"))?;
    let d = write_layout(c);
    let cfg = ConfigFiles::new(&d.0).map_err(|e| {
        format!("valid configuration rejected: {e}")
    })?;
    drop(d);
    for rt in [Rt::Approx, Rt::Exact] {
        let o = Opts { nt: c.cfg.nt, rt, concat: true, max: 20 };
        let e = encoder(&cfg, &o);
        for t in &c.texts {
            ensure_eq!(e.encode(t), model.encode(&o, t), "configuration laid out in another way, {o:?}, encode({t:?})");
        }
    }
    obs.evals(2 * c.texts.len() as u64);
    obs.nontrivial_if(c.cfg.files.iter().any(|f| f.lines.len() > 1) && (!c.noise.is_empty() || !c.trails.is_empty()));
    obs.label_if(c.crlf, "crlf");
    obs.label_if(c.cfg.files.iter().any(|f| f.lines.iter().any(|l| matches!(l, GLine::Include(_)))), "includes");
    Ok(())
}

fn layout_case() -> BoxedStrategy<LayoutCase> {
    let trail = prop_oneof![
        2 => Just(String::new()),
        1 => Just(" ".to_string()),
        1 => Just("\t ".to_string()),
        1 => Just("// comment".to_string()),
        1 => Just("  // \"a\" \"b\"".to_string()),
        1 => Just(" //".to_string()),
    ];
    (
        gcfg(),
        vec(vec(noise(), 0..3), 0..5),
        vec(select(vec![" ", "  ", "\t", " \t "]).prop_map(String::from), 0..3),
        vec(trail, 0..4),
        any::<bool>(),
        any::<bool>(),
        any::<bool>(),
        vec(gtext(), 1..5),
    )
        .prop_map(|(cfg, noise, gaps, trails, crlf, final_newline, extra_files, texts)| LayoutCase {
            cfg,
            noise,
            gaps,
            trails,
            crlf,
            final_newline,
            extra_files,
            texts,
        })
        .boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, Hash, PartialEq)]
pub enum BadKind {
    /// a line the grammar of the file does not accept
    Line,
    /// a quadruplet whose contexts or phonemes are malformed
    Content,
    /// an include of a file that does not exist
    Include,
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct BadCfgCase {
    layout: LayoutCase,
    /// which file gets the bad line (index in the required files), at which item
    file: u16,
    at: u8,
    which: u8,
    kind: BadKind,
    /// a line of the file damaged, when that makes it malformed
    #[serde(default)]
    damage: Option<Damage>,
    /// lines at the beginning of the file
    #[serde(default)]
    pad: Option<Pad>,
}

const BAD_RULE_LINES: &[&str] = &[
    "garbage",
    "\"a\" \"\" \"\"",
    "\"a\" \"b",
    "\"a\" \"b\" \"c\" \"",
    "\"",
    "\"a\" \"\" \"\" \"b\" \"c\"",
    "\"a\" \"\" \"\" \"b\" x",
    "\"a\"\"\" \"\" \"b\"",
    "\"a\" \"\"\"\" \"b\"",
    "\"a\" \"\" \"\"\"b\"",
    "\"a\" \"\" \"\" b",
    "\"\" \"\" \"\" \"b\"",
    "  \"a\" \"\" \"\" \"b\"",
    "'a' '' '' 'b'",
    "#include",
    "#includeshared",
    "#include shared part",
    "include shared",
    "a=b",
    "/* unfinished",
    "/",
    "é",
];
const BAD_LANG_LINES: &[&str] = &[
    "onlyone",
    "ab alpha",
    "ab alpha maybe",
    "ab alpha TRUE",
    "ab  alpha true",
    "ab alpha  true",
    "ab alpha true x",
    "ab alpha + any true",
    "( alpha true",
    "[ alpha true",
    "*ab alpha false",
    " ab alpha true",
    "/* unfinished",
];
const BAD_LANGUAGES_LINES: &[&str] = &["any2", " any", "alpha beta", "al-pha", "al_pha", "/* unfinished", "1", "éa", "alpha,beta"];
/// Rules with an invalid expression or phoneme, and what is invalid.
const BAD_CONTENT: &[(&str, &str)] = &[
    ("\"a\" \"[b\" \"\" \"c\"", "[b"),
    ("\"a\" \"\" \"[b\" \"c\"", "[b"),
    ("\"a\" \"\" \"([b]\" \"c\"", "([b]"),
    ("\"a\" \"[b]*(\" \"\" \"c\"", "[b]*("),
    ("\"a\" \"\" \"\" \"(b\"", "(b"),
    ("\"a\" \"\" \"\" \"(b|c\"", "(b|c"),
    ("\"a\" \"\" \"\" \"b[alpha\"", "b[alpha"),
    ("\"a\" \"\" \"\" \"(b[alpha|c)\"", "b[alpha"),
    ("\"a\" \"\" \"\" \"(b|c[alpha+any)\"", "c[alpha+any"),
    ("\"a\" \"\" \"\" \"b[alpha]c\"", "b[alpha]c"),
    ("\"é\" \"[中\" \"\" \"\"", "[中"),
];

fn check_bad_cfg(c: &BadCfgCase, obs: &mut Obs) -> CheckResult {
    let texts = c.layout.cfg.texts();
    // the files that are read: not the included ones unless something includes them
    let names: Vec<&String> = texts.keys().filter(|k| !is_included(k)).collect();
    let name = names[c.file as usize % names.len()].clone();
    let bad = if name.ends_with("_languages") {
        BAD_LANGUAGES_LINES[c.which as usize % BAD_LANGUAGES_LINES.len()]
    } else if name.ends_with("_lang") {
        BAD_LANG_LINES[c.which as usize % BAD_LANG_LINES.len()]
    } else {
        match c.kind {
            BadKind::Line => BAD_RULE_LINES[c.which as usize % BAD_RULE_LINES.len()],
            BadKind::Content => BAD_CONTENT[c.which as usize % BAD_CONTENT.len()].0,
            BadKind::Include => "#include no_such_file",
        }
    };
    let is_rules = !(name.ends_with("_languages") || name.ends_with("_lang"));
    let d = write_layout(&c.layout);
    let items = &texts[&name];
    let grammar = if is_rules {
        Kind::BmRules
    } else if name.ends_with("_lang") {
        Kind::BmLang
    } else {
        Kind::BmLanguages
    };
    let mut bad = bad.to_string();
    let mut damaged = false;
    if let (Some(x), false) = (&c.damage, items.is_empty()) {
        if let Some(l) = x.malformed(grammar, &items[c.which as usize % items.len()]) {
            bad = l;
            damaged = true;
        }
    }
    let bad = bad.as_str();
    let at = c.at as usize % (items.len() + 1);
    let mut turn = 3;
    let mut lines = c.pad.as_ref().map(Pad::lines).unwrap_or_default();
    lines.extend(spread(&items[..at], &c.layout, &mut turn).0);
    let expected = lines.len() + 1;
    lines.push(bad.to_string());
    let (mut rest, _) = spread(&items[at..], &c.layout, &mut turn);
    if bad.contains("/*") {
        rest.retain(|l| !l.contains("*/"));
    }
    lines.extend(rest);
    d.write(&name, &assemble(&lines, c.layout.crlf, c.layout.final_newline));
    let r = ConfigFiles::new(&d.0);
    drop(d);
    obs.eval();
    obs.nontrivial_if(expected > 1);
    obs.label_if(damaged, "damaged line");
    obs.label(if name.ends_with("_languages") {
        "languages file"
    } else if name.ends_with("_lang") {
        "detection file"
    } else {
        "rules file"
    });
    match r {
        Ok(_) => Err(format!("line {expected} {bad:?} of {name} accepted")),
        Err(PhoneticError::ParseRuleError(e)) => {
            ensure_eq!(e.line_number, expected, "line of the error for {bad:?} in {name}");
            ensure_eq!(e.line_content.trim_end_matches('\r'), bad, "content of the error in {name}");
            ensure!(
                e.filename.as_ref().is_some_and(|f| {
                    let f = f.rsplit('/').next().unwrap_or("");
                    f.strip_suffix(".txt").unwrap_or(f) == name
                }),
                "the error for {bad:?} in {name} names the file {:?}",
                e.filename
            );
            Ok(())
        }
        // malformed contexts and phonemes are reported by their own variants, without a position
        Err(PhoneticError::BMError(e)) => {
            ensure!(is_rules && c.kind == BadKind::Content && !damaged, "error {e:?} for {bad:?} in {name}");
            let known = matches!(e, BMError::WrongPhoneme(_) | BMError::BadContextRegex(_));
            ensure!(known, "error {e:?} for {bad:?} in {name}");
            let quoted = BAD_CONTENT[c.which as usize % BAD_CONTENT.len()].1;
            ensure!(e.to_string().contains(quoted), "the error for {bad:?} in {name} does not tell {quoted:?}: {e}");
            Ok(())
        }
    }
}

fn bad_cfg_case() -> BoxedStrategy<BadCfgCase> {
    (
        layout_case(),
        any::<u16>(),
        any::<u8>(),
        any::<u8>(),
        prop_oneof![3 => Just(BadKind::Line), 2 => Just(BadKind::Content), 1 => Just(BadKind::Include)],
        damage(0.5),
    )
        .prop_map(|(mut layout, file, at, which, kind, damage)| {
            layout.texts.clear();
            layout.cfg.without_any = false;
            BadCfgCase { layout, file, at, which, kind, damage, pad: None }
        })
        .boxed()
}

/// A required file is missing, or included files form a cycle, or an included file is malformed.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum Fault {
    Missing(u16),
    /// the file is a directory
    Directory(u16),
    NotUtf8(u16),
    Cycle(u16, u8),
    BadIncluded(u16, u8),
    NoDirectory,
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct FaultCase {
    cfg: GCfg,
    fault: Fault,
}

fn check_fault(c: &FaultCase, obs: &mut Obs) -> CheckResult {
    let mut texts = c.cfg.texts();
    let names: Vec<String> = texts.keys().filter(|k| !is_included(k)).cloned().collect();
    let rules: Vec<String> = names.iter().filter(|n| !n.ends_with("_lang") && !n.ends_with("_languages")).cloned().collect();
    let mut expect_line: Option<(String, usize, String)> = None;
    match &c.fault {
        Fault::Cycle(i, len) => {
            let start = &rules[*i as usize % rules.len()];
            match len % 3 {
                0 => texts.get_mut(start).into_iter().for_each(|l| l.push(format!("#include {start}"))),
                1 => {
                    texts.get_mut(start).into_iter().for_each(|l| l.push("#include loop1".into()));
                    texts.insert("loop1".into(), vec![format!("#include {start}")]);
                }
                _ => {
                    texts.get_mut(start).into_iter().for_each(|l| l.insert(0, "#include loop1".into()));
                    texts.insert("loop1".into(), vec!["\"a\" \"\" \"\" \"a\"".into(), "#include loop2".into()]);
                    texts.insert("loop2".into(), vec!["#include loop1".into()]);
                }
            }
            obs.label("cycle");
        }
        Fault::BadIncluded(i, which) => {
            let start = &rules[*i as usize % rules.len()];
            let bad = BAD_RULE_LINES[*which as usize % BAD_RULE_LINES.len()];
            texts.get_mut(start).into_iter().for_each(|l| l.insert(0, "#include inner".into()));
            texts.insert("inner".into(), vec!["// first".into(), "\"a\" \"\" \"\" \"a\"".into(), bad.into()]);
            expect_line = Some(("inner".into(), 3, bad.into()));
            obs.label("malformed included file");
        }
        _ => {}
    }
    let d = write_plain(&texts);
    let pick = |i: u16| d.0.join(format!("{}.txt", names[i as usize % names.len()]));
    let dir = match &c.fault {
        Fault::Missing(i) => {
            std::fs::remove_file(pick(*i)).map_err(|e| format!("INTERNAL panic: {e}"))?;
            obs.label("missing file");
            d.0.clone()
        }
        Fault::Directory(i) => {
            let p = pick(*i);
            std::fs::remove_file(&p).map_err(|e| format!("INTERNAL panic: {e}"))?;
            std::fs::create_dir(&p).map_err(|e| format!("INTERNAL panic: {e}"))?;
            obs.label("directory instead of a file");
            d.0.clone()
        }
        Fault::NotUtf8(i) => {
            std::fs::write(pick(*i), [b'/', b'/', 0xff, 0xfe, b'\n']).map_err(|e| format!("INTERNAL panic: {e}"))?;
            obs.label("not UTF-8");
            d.0.clone()
        }
        Fault::NoDirectory => {
            obs.label("no directory");
            d.0.join("nowhere")
        }
        _ => d.0.clone(),
    };
    let r = ConfigFiles::new(&dir);
    drop(d);
    obs.eval();
    obs.nontrivial();
    match r {
        Ok(_) => Err(format!("configuration accepted despite {:?}", c.fault)),
        Err(e) => {
            // errors are printable
            let _ = format!("{e} {e:?}");
            if let Some((f, n, content)) = expect_line {
                match e {
                    PhoneticError::ParseRuleError(e) => {
                        ensure_eq!(e.line_number, n, "line of the error in an included file");
                        ensure_eq!(e.line_content, content, "content of the error in an included file");
                        ensure_eq!(e.filename, Some(f), "file of the error in an included file");
                    }
                    e => return Err(format!("error {e:?} for a malformed included file")),
                }
            }
            Ok(())
        }
    }
}

fn fault_case() -> BoxedStrategy<FaultCase> {
    let f = prop_oneof![
        6 => any::<u16>().prop_map(Fault::Missing),
        1 => any::<u16>().prop_map(Fault::Directory),
        1 => any::<u16>().prop_map(Fault::NotUtf8),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Fault::Cycle(a, b)),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Fault::BadIncluded(a, b)),
        1 => Just(Fault::NoDirectory),
    ];
    (gcfg(), f)
        .prop_map(|(mut cfg, fault)| {
            cfg.without_any = false;
            FaultCase { cfg, fault }
        })
        .boxed()
}

pub fn encoding_sections() -> Vec<Section> {
    vec![
        exhaustive(
            "every-rule",
            "for every phonetic rule of every language of the commons-codec files, texts made of its pattern and of samples of its contexts, encoded with the full and the embedded rules, approximate and exact, against the model; non-trivial: the code is not empty",
            |t| rules_total() * if t == Tier::Quick { 30 } else { 60 },
            rule_case,
            check_rule,
        ),
        random(
            "embedded",
            "names assembled from rule patterns with their contexts, particles, hyphens, apostrophes, several scripts; every name type, rule type, concat mode and phoneme limit; non-trivial: two letters and a non-empty code, distinct",
            180_000,
            7_500_000,
            |_| enc_case(),
            check_embedded,
        ),
        random(
            "commons-codec-rules",
            "the same with the complete commons-codec configuration (language detection included)",
            180_000,
            7_500_000,
            |_| enc_case(),
            check_full,
        ),
        random(
            "with-languages",
            "the same with a given set of languages (none, one, several, any); and encode against encode_with_languages on the detected languages",
            120_000,
            4_500_000,
            |_| lang_case(),
            check_with_languages,
        ),
        random(
            "long-names",
            "names of 20 to 130 characters; non-trivial: as above",
            1_500,
            60_000,
            |_| long_enc_case(),
            check_embedded,
        ),
        random(
            "generated-configurations",
            "generated configuration directories (languages, detection rules, rules with literal, class and regular-expression contexts, language-restricted phonemes, includes) and texts directed at their rules, against the model; non-trivial: as above",
            36_000,
            1_500_000,
            |_| gen_case(),
            check_gen,
        ),
        random(
            "joins",
            "generated rule files whose alternatives can be joined to the same text in several ways with different languages, under limits of 1 to 7 (and 20) phonemes, against the model; non-trivial: as above",
            36_000,
            1_500_000,
            |_| joins_case(),
            check_gen,
        ),
        random(
            "far-contexts",
            "generated rule files whose contexts (repeated classes, anchors, long literals) look up to 150 characters away, patterns of up to 40 letters, and texts made of long runs, against the model; non-trivial: as above",
            6_000,
            300_000,
            |_| far_case(),
            check_gen,
        ),
        random(
            "large-configurations",
            "configurations of up to 60 languages, 40 detection rules, 150 rules in a file and 70 alternatives in a rule, against the model; non-trivial: as above",
            600,
            30_000,
            |_| large_case(),
            check_gen,
        ),
        random(
            "huge-patterns",
            "patterns and phonemes of up to 600 characters, against the model; non-trivial: as above",
            1_500,
            60_000,
            |_| huge_case(),
            check_gen,
        ),
        random(
            "wide-alternatives",
            "up to 3,000 alternatives and limits of that order, against the model; non-trivial: as above",
            1_500,
            60_000,
            |_| wide_case(),
            check_gen,
        ),
    ]
}

pub fn detection_sections() -> Vec<Section> {
    vec![
        random(
            "shipped-rules",
            "commons-codec detection rules with phonetic rules that spell the languages still possible; texts made of samples of the detection expressions; non-trivial: detection excludes some language and leaves some",
            180_000,
            7_500_000,
            |_| detect_case(),
            check_detect,
        ),
        random(
            "generated-rules",
            "generated languages and detection rules (accepting and excluding, overlapping, contradictory); non-trivial: some rule matches the text",
            36_000,
            1_500_000,
            |_| gen_detect_case(),
            check_gen_detect,
        ),
        random(
            "many-rules",
            "detection files of up to 2,100 rules, most of which never match; non-trivial: as above",
            600,
            20_000,
            |_| many_detect_case(),
            check_gen_detect,
        ),
        random(
            "far-rules",
            "up to 50 languages and 60 detection rules whose expressions look at the whole of texts of up to 300 characters; non-trivial: as above",
            6_000,
            200_000,
            |_| far_detect_case(),
            check_gen_detect,
        ),
    ]
}

pub fn config_sections() -> Vec<Section> {
    vec![
        random(
            "layouts",
            "generated configuration directories written with comments of both kinds, blank lines, free spacing, LF or CRLF, extra files; the encoder must follow the model of the bare rules; non-trivial: some file with two items, and noise",
            24_000,
            1_050_000,
            |_| layout_case(),
            check_layout,
        ),
        random(
            "errors",
            "one malformed line (of a list, or a line of the file with one character removed, added, replaced or exchanged, or cut short) in one file of a generated configuration: an error that names the file, the line number and the line; malformed contexts and phonemes: an error; non-trivial: not on the first line",
            30_000,
            1_200_000,
            |_| bad_cfg_case(),
            check_bad_cfg,
        ),
        random(
            "long-files",
            "the same after up to 67,000 lines of comments or blank lines; non-trivial: as above",
            800,
            20_000,
            |_| (bad_cfg_case(), pad()).prop_map(|(c, pad)| BadCfgCase { pad: Some(pad), ..c }).boxed(),
            check_bad_cfg,
        ),
        random(
            "faults",
            "a required file missing, not a file or not UTF-8, no directory, includes forming a cycle, malformed included file: an error, never a panic nor an endless recursion; every case is non-trivial",
            18_000,
            750_000,
            |_| fault_case(),
            check_fault,
        ),
    ]
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C14",
            assumptions: &["the reference model is right about the Beider-Morse engine of commons-codec"],
            sections: encoding_sections,
        },
        Property {
            id: "C15",
            assumptions: &["the regex crate (shared with the code under test) evaluates expressions rightly"],
            sections: detection_sections,
        },
        Property {
            id: "C16",
            assumptions: &["the grammar of the files is the one of commons-codec"],
            sections: config_sections,
        },
    ]
}
