use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// A Daitch-Mokotoff rule as written in a rule file.
#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub struct DmRule {
    pub pattern: String,
    pub start: Vec<String>,
    pub vowel: Vec<String>,
    pub other: Vec<String>,
}

impl DmRule {
    pub fn quad(&self) -> [String; 4] {
        [self.pattern.clone(), self.start.join("|"), self.vowel.join("|"), self.other.join("|")]
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub struct DmRules {
    pub rules: Vec<DmRule>,
    pub folding: Vec<(char, char)>,
}

pub struct DmModel {
    /// by first character, longest pattern first (in file order for the same length)
    by_first: BTreeMap<char, Vec<(Vec<char>, DmRule)>>,
    folding: BTreeMap<char, char>,
}

#[derive(Clone)]
struct Br {
    digits: Vec<char>,
    last: Option<String>,
}

impl DmModel {
    pub fn new(r: &DmRules) -> Self {
        let mut by_first: BTreeMap<char, Vec<(Vec<char>, DmRule)>> = BTreeMap::new();
        for rule in &r.rules {
            let p: Vec<char> = rule.pattern.chars().collect();
            by_first.entry(p[0]).or_default().push((p, rule.clone()));
        }
        for v in by_first.values_mut() {
            v.sort_by_key(|(p, _)| std::cmp::Reverse(p.len()));
        }
        Self {
            by_first,
            folding: r.folding.iter().copied().collect(),
        }
    }

    /// All the codes, in branching order, without duplicates.
    pub fn codes(&self, text: &str, folding: bool, branching: bool) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for mut b in self.branches(text, folding, branching, usize::MAX).unwrap_or_default() {
            while b.digits.len() < 6 {
                b.digits.push('0');
            }
            let s: String = b.digits.into_iter().collect();
            if !out.contains(&s) {
                out.push(s);
            }
        }
        out
    }

    /// The number of branches exceeds `most` at some place.
    pub fn too_many(&self, text: &str, most: usize) -> bool {
        [true, false].iter().any(|folding| self.branches(text, *folding, true, most).is_none())
    }

    fn branches(&self, text: &str, folding: bool, branching: bool, most: usize) -> Option<Vec<Br>> {
        let t: Vec<char> = text
            .chars()
            .filter(|c| !c.is_whitespace())
            .map(|c| {
                let l = c.to_lowercase().next().unwrap_or(c);
                if folding {
                    self.folding.get(&l).copied().unwrap_or(l)
                } else {
                    l
                }
            })
            .collect();
        let mut branches = vec![Br { digits: vec![], last: None }];
        let mut previous: Option<char> = None; // previous character which starts some rule
        let mut i = 0;
        while i < t.len() {
            let ch = t[i];
            let mut consumed = 1;
            if let Some(rules) = self.by_first.get(&ch) {
                if let Some((p, rule)) = rules.iter().find(|(p, _)| t[i..].starts_with(p)) {
                    let next_vowel = t.get(i + p.len()).is_some_and(|c| "aeiou".contains(*c));
                    let reps = if previous.is_none() {
                        &rule.start
                    } else if next_vowel {
                        &rule.vowel
                    } else {
                        &rule.other
                    };
                    let force = matches!((previous, ch), (Some('m'), 'n') | (Some('n'), 'm'));
                    let reps: &[String] = if branching { reps } else { &reps[..1] };
                    let mut next: Vec<Br> = vec![];
                    for b in &branches {
                        for r in reps {
                            let mut nb = b.clone();
                            let repeats = nb.last.as_ref().is_some_and(|l| l.ends_with(r.as_str()));
                            if force || !repeats {
                                nb.digits.extend(r.chars());
                                nb.digits.truncate(6);
                            }
                            nb.last = Some(r.clone());
                            if !next.iter().any(|o| o.digits == nb.digits && o.last == nb.last) {
                                next.push(nb);
                            }
                        }
                    }
                    if next.len() > most {
                        return None;
                    }
                    branches = next;
                    consumed = p.len();
                }
                previous = Some(ch);
            }
            i += consumed;
        }
        Some(branches)
    }
}

/// Line oriented reader for the shipped rule file.
pub fn parse_shipped(text: &str) -> DmRules {
    let mut out = DmRules::default();
    let mut in_comment = false;
    for line in text.lines() {
        let l = line.trim();
        if in_comment {
            if l.contains("*/") {
                in_comment = false;
            }
            continue;
        }
        if l.starts_with("/*") {
            in_comment = !l.contains("*/");
            continue;
        }
        if l.is_empty() || l.starts_with("//") {
            continue;
        }
        if let Some(stripped) = l.strip_prefix('"') {
            let parts: Vec<&str> = stripped.split('"').collect();
            // pattern " " start " " vowel " " other "
            let b = |s: &str| s.split('|').map(|x| x.to_string()).collect::<Vec<_>>();
            out.rules.push(DmRule {
                pattern: parts[0].to_string(),
                start: b(parts[2]),
                vowel: b(parts[4]),
                other: b(parts[6]),
            });
        } else {
            let cs: Vec<char> = l.chars().collect();
            if cs.len() >= 3 && cs[1] == '=' {
                out.folding.push((cs[0], cs[2]));
            }
        }
    }
    out
}
