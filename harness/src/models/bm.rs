//! Reference Beider-Morse engine: interprets a configuration (languages, detection rules, phonetic
//! rules) given as plain data.

use regex::Regex;
use std::collections::{BTreeMap, BTreeSet};

/// A set of languages: everything, or the listed ones.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ls {
    Any,
    Of(BTreeSet<String>),
}

impl Ls {
    pub fn none(&self) -> bool {
        matches!(self, Ls::Of(s) if s.is_empty())
    }
    pub fn and(&self, o: &Ls) -> Ls {
        match (self, o) {
            (Ls::Any, x) | (x, Ls::Any) => x.clone(),
            (Ls::Of(a), Ls::Of(b)) => Ls::Of(a & b),
        }
    }
    pub fn or(&self, o: &Ls) -> Ls {
        match (self, o) {
            (Ls::Any, _) | (_, Ls::Any) => Ls::Any,
            (Ls::Of(a), Ls::Of(b)) => Ls::Of(a | b),
        }
    }
}

/// What must stand next to a pattern.
#[derive(Clone, Debug)]
pub enum Context {
    Anything,
    /// exactly this text on that side, up to the end of the input
    Exactly(String),
    /// this text, adjacent
    Text(String),
    /// one adjacent character, in (or out of) the set
    OneOf(String, bool),
    /// that side is made of one character, in (or out of) the set
    OnlyOneOf(String, bool),
    Regex(Regex),
}

impl Context {
    /// `body` is what is written in the rule; `left` tells on which side it stands.
    pub fn parse(body: &str, left: bool) -> Result<Context, String> {
        let (text, anchored) = if left {
            match body.strip_prefix('^') {
                Some(b) => (b, true),
                None => (body, false),
            }
        } else {
            match body.strip_suffix('$') {
                Some(b) => (b, true),
                None => (body, false),
            }
        };
        if !text.contains('[') {
            return Ok(match (text.is_empty(), anchored) {
                (true, false) => Context::Anything,
                (_, true) => Context::Exactly(text.to_string()),
                (false, false) => Context::Text(text.to_string()),
            });
        }
        if let Some(inner) = text.strip_prefix('[').and_then(|t| t.strip_suffix(']')) {
            if !inner.contains('[') {
                let (set, want) = match inner.strip_prefix('^') {
                    Some(s) => (s, false),
                    None => (inner, true),
                };
                return Ok(if anchored {
                    Context::OnlyOneOf(set.to_string(), want)
                } else {
                    Context::OneOf(set.to_string(), want)
                });
            }
        }
        let r = if left { format!("{body}$") } else { format!("^{body}") };
        Regex::new(&r).map(Context::Regex).map_err(|e| e.to_string())
    }

    fn ok(&self, side: &str, left: bool) -> bool {
        match self {
            Context::Anything => true,
            Context::Exactly(t) => side == t,
            Context::Text(t) => {
                if left {
                    side.ends_with(t.as_str())
                } else {
                    side.starts_with(t.as_str())
                }
            }
            Context::OneOf(set, want) => {
                let c = if left { side.chars().last() } else { side.chars().next() };
                c.is_some_and(|c| set.contains(c) == *want)
            }
            Context::OnlyOneOf(set, want) => {
                let v: Vec<char> = side.chars().collect();
                v.len() == 1 && set.contains(v[0]) == *want
            }
            Context::Regex(r) => r.is_match(side),
        }
    }
}

#[derive(Clone, Debug)]
pub struct MRule {
    pub pattern: Vec<char>,
    pub left: Context,
    pub right: Context,
    pub phonemes: Vec<(String, Ls)>,
    /// contexts as written
    pub left_src: String,
    pub right_src: String,
}

impl MRule {
    pub fn new(pattern: &str, left: &str, right: &str, expr: &str) -> Result<MRule, String> {
        Ok(MRule {
            pattern: pattern.chars().collect(),
            left: Context::parse(left, true)?,
            right: Context::parse(right, false)?,
            phonemes: phonemes(expr)?,
            left_src: left.to_string(),
            right_src: right.to_string(),
        })
    }
}

/// Rules of one file, by first character of the pattern, in order.
pub type RuleMap = BTreeMap<char, Vec<MRule>>;

#[derive(Clone, Debug)]
pub struct LangRule {
    pub pattern: Regex,
    pub languages: BTreeSet<String>,
    pub accept: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
pub enum Nt {
    Ash,
    Gen,
    Sep,
}

impl Nt {
    pub const ALL: [Nt; 3] = [Nt::Ash, Nt::Gen, Nt::Sep];
    pub fn name(self) -> &'static str {
        match self {
            Nt::Ash => "ash",
            Nt::Gen => "gen",
            Nt::Sep => "sep",
        }
    }
    pub fn cut(self) -> rphonetic::NameType {
        match self {
            Nt::Ash => rphonetic::NameType::Ashkenazi,
            Nt::Gen => rphonetic::NameType::Generic,
            Nt::Sep => rphonetic::NameType::Sephardic,
        }
    }
    fn prefixes(self) -> &'static [&'static str] {
        match self {
            Nt::Ash => &["bar", "ben", "da", "de", "van", "von"],
            Nt::Gen => &[
                "da", "dal", "de", "de la", "del", "dela", "della", "des", "di", "do", "dos", "du", "van", "von",
            ],
            Nt::Sep => &[
                "al", "da", "dal", "de", "de la", "del", "dela", "della", "des", "di", "do", "dos", "du", "el",
                "van", "von",
            ],
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
pub enum Rt {
    Approx,
    Exact,
}

impl Rt {
    pub fn name(self) -> &'static str {
        match self {
            Rt::Approx => "approx",
            Rt::Exact => "exact",
        }
    }
    pub fn cut(self) -> rphonetic::RuleType {
        match self {
            Rt::Approx => rphonetic::RuleType::Approx,
            Rt::Exact => rphonetic::RuleType::Exact,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Config {
    pub languages: BTreeMap<&'static str, BTreeSet<String>>,
    pub detection: BTreeMap<&'static str, Vec<LangRule>>,
    /// by file name without extension
    pub rules: BTreeMap<String, RuleMap>,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Opts {
    pub nt: Nt,
    pub rt: Rt,
    pub concat: bool,
    pub max: usize,
}

/// text -> languages, ordered by text
type Phonemes = BTreeMap<String, Ls>;

impl Config {
    pub fn guess(&self, nt: Nt, input: &str) -> Ls {
        let input = input.to_lowercase();
        let mut set = self.languages.get(nt.name()).cloned().unwrap_or_default();
        for r in self.detection.get(nt.name()).into_iter().flatten() {
            if r.pattern.is_match(&input) {
                set.retain(|l| r.languages.contains(l) == r.accept);
            }
        }
        if set.is_empty() {
            Ls::Any
        } else {
            Ls::Of(set)
        }
    }

    pub fn encode(&self, o: &Opts, input: &str) -> String {
        let l = self.guess(o.nt, input);
        self.encode_with(o, input, &l)
    }

    pub fn encode_with(&self, o: &Opts, input: &str, langs: &Ls) -> String {
        let input: String = input.to_lowercase().chars().map(|c| if c == '-' { ' ' } else { c }).collect();
        let input = input.trim();
        if o.nt == Nt::Gen {
            // a leading particle: the name without it, and the name with it glued
            let mut candidates: Vec<(String, String)> = vec![("d'".into(), "d".into())];
            for p in Nt::Gen.prefixes() {
                candidates.push((format!("{p} "), p.to_string()));
            }
            for (written, glued) in candidates {
                if let Some(rest) = input.strip_prefix(written.as_str()) {
                    return format!("({})-({})", self.encode(o, rest), self.encode(o, &format!("{glued}{rest}")));
                }
            }
        }
        let words: Vec<&str> = input.split_whitespace().collect();
        let text = if o.concat {
            let mut kept: Vec<&str> = vec![];
            for w in &words {
                let w = if o.nt == Nt::Sep {
                    match w.rfind('\'') {
                        Some(i) => &w[i + 1..],
                        None => w,
                    }
                } else {
                    w
                };
                if o.nt == Nt::Gen || !o.nt.prefixes().contains(&w) {
                    kept.push(w);
                }
            }
            kept.join(" ")
        } else if words.len() == 1 {
            words[0].to_string()
        } else {
            let parts: Vec<String> = words.iter().map(|w| self.encode(o, w)).collect();
            return parts.join("-");
        };
        let l = match langs {
            Ls::Of(s) if s.len() == 1 => s.iter().next().cloned().unwrap_or_default(),
            _ => "any".to_string(),
        };
        // the rules of a language the configuration does not know are those for any language
        let l = if self.languages.get(o.nt.name()).is_some_and(|s| s.contains(&l)) { l } else { "any".to_string() };
        let file = |kind: &str, l: &str| self.rules.get(&format!("{}_{}_{}", o.nt.name(), kind, l));
        let mut ph: Phonemes = BTreeMap::from([(String::new(), langs.clone())]);
        if let Some(rules) = file("rules", &l) {
            ph = self.rewrite(&text, ph, rules, o.max, false);
        }
        for f in [file(o.rt.name(), "common"), file(o.rt.name(), &l)] {
            let Some(f) = f else { continue };
            if f.is_empty() {
                continue;
            }
            let mut out: Phonemes = BTreeMap::new();
            for (t, ls) in &ph {
                let start: Phonemes = BTreeMap::from([(String::new(), ls.clone())]);
                for (nt, nl) in self.rewrite(t, start, f, o.max, true) {
                    let v = match out.get(&nt) {
                        // the text was already there: it is now reachable in these languages too
                        Some(old) => old.or(&nl),
                        None => nl,
                    };
                    out.insert(nt, v);
                }
            }
            ph = out;
        }
        ph.keys().cloned().collect::<Vec<_>>().join("|")
    }

    fn rewrite(&self, text: &str, mut ph: Phonemes, rules: &RuleMap, max: usize, keep_unknown: bool) -> Phonemes {
        let t: Vec<char> = text.chars().collect();
        let mut i = 0;
        while i < t.len() {
            let before: String = t[..i].iter().collect();
            let hit = rules.get(&t[i]).and_then(|rs| {
                rs.iter().find(|r| {
                    t[i..].starts_with(&r.pattern) && {
                        let after: String = t[i + r.pattern.len()..].iter().collect();
                        r.right.ok(&after, false) && r.left.ok(&before, true)
                    }
                })
            });
            match hit {
                Some(r) => {
                    let mut out: Phonemes = BTreeMap::new();
                    'all: for (lt, ll) in &ph {
                        for (rt, rl) in &r.phonemes {
                            let both = ll.and(rl);
                            if both.none() {
                                continue;
                            }
                            let joined = format!("{lt}{rt}");
                            if let Some(old) = out.get_mut(&joined) {
                                *old = old.or(&both);
                            } else if out.len() < max {
                                out.insert(joined, both);
                            }
                            if out.len() >= max {
                                break 'all;
                            }
                        }
                    }
                    ph = out;
                    i += r.pattern.len();
                }
                None => {
                    if keep_unknown {
                        ph = ph.into_iter().map(|(s, l)| (format!("{s}{}", t[i]), l)).collect();
                    }
                    i += 1;
                }
            }
        }
        ph
    }
}

/// `(a|b[x+y]|)` or `a[x]` or `a`.
pub fn phonemes(expr: &str) -> Result<Vec<(String, Ls)>, String> {
    let one = |p: &str| -> Result<(String, Ls), String> {
        match p.split_once('[') {
            None => Ok((p.to_string(), Ls::Any)),
            Some((t, l)) => match l.strip_suffix(']') {
                Some(l) => Ok((t.to_string(), Ls::Of(l.split('+').map(|s| s.to_string()).collect()))),
                None => Err(format!("unclosed [ in {p}")),
            },
        }
    };
    match expr.strip_prefix('(') {
        None => Ok(vec![one(expr)?]),
        Some(r) => {
            let inner = r.strip_suffix(')').ok_or_else(|| format!("unclosed ( in {expr}"))?;
            inner.split('|').map(one).collect()
        }
    }
}

/// Reader for the shipped files.
pub fn load_dir(dir: &std::path::Path) -> Result<Config, String> {
    let mut c = Config::default();
    for nt in Nt::ALL {
        let n = nt.name();
        let langs: BTreeSet<String> = lines(&read(dir, &format!("{n}_languages"))?)
            .into_iter()
            .map(|l| l.trim().to_string())
            .collect();
        let mut det = vec![];
        for l in lines(&read(dir, &format!("{n}_lang"))?) {
            let f: Vec<&str> = l.split_whitespace().collect();
            det.push(LangRule {
                pattern: Regex::new(f[0]).map_err(|e| e.to_string())?,
                languages: f[1].split('+').map(|s| s.to_string()).collect(),
                accept: f[2] == "true",
            });
        }
        c.detection.insert(n, det);
        for l in &langs {
            for kind in ["rules", "approx", "exact"] {
                let f = format!("{n}_{kind}_{l}");
                let m = load_rules(dir, &f)?;
                c.rules.insert(f, m);
            }
        }
        for kind in ["approx", "exact"] {
            let f = format!("{n}_{kind}_common");
            let m = load_rules(dir, &f)?;
            c.rules.insert(f, m);
        }
        c.languages.insert(n, langs);
    }
    Ok(c)
}

/// The embedded configuration: no language to detect, the rules for any language.
pub fn any_only(dir: &std::path::Path) -> Result<Config, String> {
    let mut c = load_dir(dir)?;
    for nt in Nt::ALL {
        c.languages.insert(nt.name(), BTreeSet::new());
        c.detection.insert(nt.name(), vec![]);
    }
    c.rules.retain(|k, _| k.ends_with("_any") || k.ends_with("_common"));
    Ok(c)
}

fn read(dir: &std::path::Path, f: &str) -> Result<String, String> {
    std::fs::read_to_string(dir.join(format!("{f}.txt"))).map_err(|e| format!("{f}: {e}"))
}

/// Lines without comments (// to the end of line outside of quotes, /* .. */ blocks) nor blanks.
fn lines(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut block = false;
    for l in text.lines() {
        if block {
            block = !l.contains("*/");
            continue;
        }
        if l.starts_with("/*") {
            block = !l.contains("*/");
            continue;
        }
        let mut quote = false;
        let mut cut = l.len();
        let b = l.as_bytes();
        for i in 0..b.len() {
            if b[i] == b'"' && (i == 0 || b[i - 1] != b'\\') {
                quote = !quote;
            }
            if !quote && b[i..].starts_with(b"//") {
                cut = i;
                break;
            }
        }
        let l = l[..cut].trim_end();
        if !l.trim().is_empty() {
            out.push(l.to_string());
        }
    }
    out
}

fn quoted(l: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur: Option<String> = None;
    let mut prev = ' ';
    for c in l.chars() {
        match (&mut cur, c) {
            (None, '"') => cur = Some(String::new()),
            (Some(s), '"') if prev == '\\' && s == "\\" => s.push('"'),
            (Some(s), '"') => {
                out.push(s.clone());
                cur = None;
            }
            (Some(s), c) => s.push(c),
            _ => {}
        }
        prev = c;
    }
    out
}

fn load_rules(dir: &std::path::Path, f: &str) -> Result<RuleMap, String> {
    let mut m: RuleMap = BTreeMap::new();
    for l in lines(&read(dir, f)?) {
        if let Some(inc) = l.trim().strip_prefix("#include ") {
            // an included file replaces the rules of the characters it defines
            m.extend(load_rules(dir, inc.trim())?);
            continue;
        }
        let q = quoted(&l);
        if q.len() != 4 {
            return Err(format!("{f}: {l}"));
        }
        let r = MRule::new(&q[0], &q[1], &q[2], &q[3])?;
        m.entry(r.pattern[0]).or_default().push(r);
    }
    Ok(m)
}
