//! The documented syntax of one line of a rule file, and small damages done to valid lines.

use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// `"…" "…" "…" "…"` or `a=b`
    DmRules,
    /// `"…" "…" "…" "…"` or `#include name`
    BmRules,
    /// `expression languages true|false`
    BmLang,
    /// one word
    BmLanguages,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Valid,
    Malformed,
    /// what follows decides (an open comment)
    Depends,
}
use Verdict::*;

/// What may end a line: spaces, then a comment.
fn line_end(s: &str) -> bool {
    let s = s.trim_start_matches([' ', '\t']);
    s.is_empty() || s.starts_with("//")
}

fn quadruplet(line: &str) -> Verdict {
    let mut s = line;
    for k in 0..4 {
        let Some(r) = s.strip_prefix('"') else { return Malformed };
        let (content, rest) = if let Some(r) = r.strip_prefix("\\\"") {
            ("\\\"", r)
        } else if let Some(i) = r.find('"') {
            (&r[..i], &r[i..])
        } else {
            return Malformed;
        };
        if k == 0 && content.is_empty() {
            return Malformed;
        }
        let Some(r) = rest.strip_prefix('"') else { return Malformed };
        s = r;
        if k < 3 {
            let t = s.trim_start_matches([' ', '\t']);
            if t.len() == s.len() {
                return Malformed;
            }
            s = t;
        }
    }
    if line_end(s) { Valid } else { Malformed }
}

fn folding(line: &str) -> bool {
    let mut c = line.chars();
    c.next().is_some() && c.next() == Some('=') && c.next().is_some() && line_end(c.as_str())
}

fn include(line: &str) -> bool {
    line.strip_prefix("#include ").is_some_and(|r| {
        let end = r.find(|c: char| !(c.is_alphanumeric() || c == '-' || c == '_')).unwrap_or(r.len());
        end > 0 && line_end(&r[end..])
    })
}

fn detection(line: &str) -> bool {
    let mut p = line.splitn(3, ' ');
    let (Some(re), Some(ls), Some(rest)) = (p.next(), p.next(), p.next()) else { return false };
    if re.is_empty() || ls.is_empty() {
        return false;
    }
    let Some(end) = rest.strip_prefix("true").or_else(|| rest.strip_prefix("false")) else { return false };
    line_end(end) && regex::Regex::new(re).is_ok()
}

fn language(line: &str) -> bool {
    let end = line.find(|c: char| !c.is_ascii_alphabetic()).unwrap_or(line.len());
    end > 0 && line_end(&line[end..])
}

/// Whether a line (without its end) is well formed in a file of that kind.
pub fn judge(kind: Kind, line: &str) -> Verdict {
    if line_end(line) {
        return Valid;
    }
    if line.starts_with("/*") {
        return Depends;
    }
    let other = match kind {
        Kind::DmRules => folding(line),
        Kind::BmRules => include(line),
        Kind::BmLang => return if detection(line) { Valid } else { Malformed },
        Kind::BmLanguages => return if language(line) { Valid } else { Malformed },
    };
    if other {
        return Valid;
    }
    quadruplet(line)
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Damage {
    /// remove, insert, replace, exchange, cut the end
    pub op: u8,
    pub at: u16,
    pub with: char,
}

pub const DAMAGE_CHARS: &[char] =
    &['"', '"', ' ', '\t', 'a', '=', '/', '#', 'é', '*', '1', '(', '|', ',', ';', '\u{a0}', '\u{3000}', '\'', '“', '\u{c}', '\u{feff}'];

impl Damage {
    pub fn of(&self, line: &str) -> String {
        let mut v: Vec<char> = line.chars().collect();
        let n = v.len();
        let k = self.at as usize;
        match self.op % 5 {
            0 if n > 0 => {
                v.remove(k % n);
            }
            2 if n > 0 => v[k % n] = self.with,
            3 if n > 1 => {
                let i = k % (n - 1);
                v.swap(i, i + 1);
            }
            4 if n > 0 => v.truncate(k % n),
            _ => v.insert(k % (n + 1), self.with),
        }
        v.into_iter().collect()
    }
    /// the damaged line if it is malformed whatever follows it
    pub fn malformed(&self, kind: Kind, line: &str) -> Option<String> {
        let s = self.of(line);
        (judge(kind, &s) == Malformed).then_some(s)
    }
}
