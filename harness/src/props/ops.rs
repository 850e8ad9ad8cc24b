//! Every encoder and encoding operation of the crate, with its reference model: the table used by
//! the laws which hold across all of them.

use crate::gen;
use crate::models as m;
use crate::models::bm::{Nt, Opts, Rt};
use crate::models::dm::{parse_shipped, DmModel};
use crate::props::{bm, dm, enc};
use proptest::strategy::{BoxedStrategy, Strategy};
use rphonetic::*;

pub struct Op {
    pub family: &'static str,
    pub name: String,
    /// the second text only matters to comparisons
    pub run: Box<dyn Fn(&str, &str) -> String>,
    pub model: Model,
    pub arg: usize,
}

/// Reference model of an operation on one text, or on two.
pub enum Model {
    One(fn(usize, &str) -> String),
    Two(fn(usize, &str, &str) -> String),
}

impl Op {
    pub fn want(&self, a: &str, b: &str) -> String {
        match self.model {
            Model::One(f) => f(self.arg, a),
            Model::Two(f) => f(self.arg, a, b),
        }
    }
    /// Whether the second text matters.
    pub fn two(&self) -> bool {
        matches!(self.model, Model::Two(_))
    }
}

pub const LIMITS: &[Option<usize>] =
    &[Some(4), None, Some(0), Some(1), Some(3), Some(7), Some(12), Some(usize::MAX)];
pub const PHONEX_LENGTHS: &[usize] = &[4, 1, 0, 2, 7, 20, 300];

pub fn bm_opts(i: usize) -> Opts {
    let nt = Nt::ALL[i % 3];
    let rt = [Rt::Approx, Rt::Exact][i / 3 % 2];
    let concat = i / 6 % 2 == 0;
    Opts { nt, rt, concat, max: [20, 4][i / 12 % 2] }
}

fn op(
    v: &mut Vec<Op>,
    family: &'static str,
    name: impl Into<String>,
    _tokens: &'static [&'static str],
    arg: usize,
    run: impl Fn(&str) -> String + 'static,
    model: fn(usize, &str) -> String,
) {
    v.push(Op { family, name: name.into(), run: Box::new(move |a, _| run(a)), model: Model::One(model), arg });
}

fn pair_op(
    v: &mut Vec<Op>,
    family: &'static str,
    name: impl Into<String>,
    arg: usize,
    run: impl Fn(&str, &str) -> String + 'static,
    model: fn(usize, &str, &str) -> String,
) {
    v.push(Op { family, name: name.into(), run: Box::new(run), model: Model::Two(model), arg });
}

thread_local! {
    static DM: &'static DmModel = Box::leak(Box::new(DmModel::new(&parse_shipped(dm::SHIPPED))));
}

fn enc_op(
    v: &mut Vec<Op>,
    family: &'static str,
    name: impl Into<String>,
    tokens: &'static [&'static str],
    arg: usize,
    e: impl Encoder + 'static,
    model: fn(usize, &str) -> String,
) {
    op(v, family, name, tokens, arg, move |s| e.encode(s), model);
}

/// Two small configurations: the same patterns, other sounds and other detection rules.
fn tiny_files(which: usize) -> std::collections::BTreeMap<String, Vec<String>> {
    let mut f = std::collections::BTreeMap::new();
    let q = |p: &str, s: &str| format!("\"{p}\" \"\" \"\" \"{s}\"");
    for n in ["ash", "gen", "sep"] {
        let mut w = |k: &str, v: Vec<String>| f.insert(format!("{n}_{k}"), v);
        w("languages", vec!["any".into(), "english".into(), "french".into()]);
        let (x, y) = if which == 0 { ("english", "french") } else { ("french", "english") };
        w("lang", vec![format!("^s {x} true"), format!("t$ {y} true"), format!("ch {x} false")]);
        for (l, k) in [("any", 0), ("english", 1), ("french", 2)] {
            let mut rules = vec![q("sch", if which == 0 { "S" } else { "(Z|s)" }), q("ch", if which == 0 { "(x|X)" } else { "k" })];
            for (i, c) in ('a'..='z').enumerate() {
                let to = (b'a' + ((i + 7 * which + 3 * k) % 26) as u8) as char;
                rules.push(q(&c.to_string(), &to.to_string()));
            }
            w(&format!("rules_{l}"), rules);
            w(&format!("approx_{l}"), vec![q("a", if which == 0 { "(a|o)" } else { "(o|u)" })]);
            w(&format!("exact_{l}"), vec![]);
        }
        w("approx_common", vec![q("b", if which == 0 { "p" } else { "v" })]);
        w("exact_common", vec![q("d", if which == 0 { "t" } else { "z" })]);
    }
    f
}

fn tiny_opts(i: usize) -> Opts {
    Opts { nt: [Nt::Gen, Nt::Sep][i % 2], rt: [Rt::Approx, Rt::Exact][i / 2 % 2], concat: true, max: 20 }
}

fn tiny(which: usize) -> &'static ConfigFiles {
    static C: std::sync::OnceLock<[ConfigFiles; 2]> = std::sync::OnceLock::new();
    &C.get_or_init(|| {
        [0, 1].map(|k| {
            let d = bm::write_plain(&tiny_files(k));
            match ConfigFiles::new(&d.0) {
                Ok(c) => c,
                Err(e) => panic!("VIOLATES: a valid configuration must load: {e}"),
            }
        })
    })[which]
}

fn tiny_model(which: usize) -> &'static m::bm::Config {
    static C: std::sync::OnceLock<[m::bm::Config; 2]> = std::sync::OnceLock::new();
    &C.get_or_init(|| [0, 1].map(|k| m::bm::load_dir(&bm::write_plain(&tiny_files(k)).0).expect("small configuration")))[which]
}

/// Two rule files of the same size for Daitch-Mokotoff.
fn tiny_dm(which: usize) -> &'static str {
    [
        "\"a\" \"0\" \"1\" \"\"\n\"s\" \"4|7\" \"4\" \"4\"\n\"sch\" \"2\" \"2\" \"2|4\"\n\"k\" \"5\" \"5\" \"5\"\n\"r\" \"9\" \"9\" \"9\"\nä=a\n",
        "\"a\" \"1\" \"0\" \"\"\n\"s\" \"5|8\" \"5\" \"5\"\n\"sch\" \"3\" \"3\" \"3|5\"\n\"k\" \"6\" \"6\" \"6\"\n\"r\" \"8\" \"8\" \"8\"\nä=s\n",
    ][which]
}

thread_local! {
    static TINY_DM: [DmModel; 2] = [0, 1].map(|k| DmModel::new(&parse_shipped(tiny_dm(k))));
}

fn other_mapping(which: usize) -> [char; 26] {
    let mut v = m::soundex::default_mapping();
    v.rotate_left(1 + which);
    v
}

/// Freshly built encoders. The Beider-Morse ones borrow the given configurations.
pub fn ops(embedded: &'static ConfigFiles, full: Option<&'static ConfigFiles>) -> Vec<Op> {
    let mut v = light_ops();
    for i in 0..24 {
        let o = bm_opts(i);
        let e = bm::encoder(embedded, &o);
        enc_op(&mut v, "bm-embedded", format!("BeiderMorse embedded {o:?}"), gen::NAMES, i, e, |i, s| {
            bm::shipped().any_model.encode(&bm_opts(i), s)
        });
    }
    for which in 0..2usize {
        for i in 0..4usize {
            let e = bm::encoder(tiny(which), &tiny_opts(i));
            enc_op(&mut v, "bm-tiny", format!("BeiderMorse small configuration {which} {:?}", tiny_opts(i)), gen::NAMES, which * 4 + i, e, |i, s| {
                tiny_model(i / 4).encode(&tiny_opts(i % 4), s)
            });
        }
        let e = bm::encoder(tiny(which), &tiny_opts(0));
        op(&mut v, "bm-tiny", format!("BeiderMorse small configuration {which}, given a language"), gen::NAMES, which, move |s| {
            e.encode_with_languages(s, &LanguageSet::from(vec!["english"]))
        }, |i, s| tiny_model(i).encode_with(&tiny_opts(0), s, &m::bm::Ls::Of(["english".to_string()].into())));
    }
    if let Some(full) = full {
        for i in 0..12 {
            let o = bm_opts(i);
            let e = bm::encoder(full, &o);
            enc_op(&mut v, "bm-full", format!("BeiderMorse commons-codec {o:?}"), gen::NAMES, i, e, |i, s| {
                bm::shipped().model.encode(&bm_opts(i), s)
            });
        }
    }
    v
}

/// Everything but Beider-Morse.
pub fn light_ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let t = enc::SOUNDEX.tokens;
    enc_op(&mut v, "soundex", "Soundex::default", t, 0, Soundex::default(), |_, s| {
        m::soundex::soundex(&m::soundex::default_mapping(), true, s)
    });
    enc_op(&mut v, "soundex", "Soundex genealogy", t, 0, Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX), |_, s| {
        m::soundex::soundex(&m::soundex::genealogy_mapping(), false, s)
    });
    enc_op(&mut v, "soundex", "Soundex without H/W case", t, 0, Soundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, false), |_, s| {
        m::soundex::soundex(&m::soundex::default_mapping(), false, s)
    });
    enc_op(&mut v, "refined-soundex", "RefinedSoundex::default", enc::REFINED.tokens, 0, RefinedSoundex::default(), |_, s| {
        m::soundex::refined(&m::soundex::refined_mapping(), s)
    });
    for (i, l) in LIMITS.iter().enumerate() {
        enc_op(&mut v, "metaphone", format!("Metaphone::new({l:?})"), enc::METAPHONE_TOKENS, i, Metaphone::new(*l), |i, s| {
            m::metaphone::metaphone(LIMITS[i], s)
        });
    }
    let t = enc::DOUBLE_METAPHONE_TOKENS;
    for (i, l) in LIMITS.iter().enumerate() {
        let new = || DoubleMetaphone::new(*l);
        enc_op(&mut v, "double-metaphone", format!("DoubleMetaphone::new({l:?}) encode"), t, i, new(), |i, s| {
            m::double_metaphone::double_metaphone(LIMITS[i], s).primary
        });
        let d = new();
        op(&mut v, "double-metaphone", format!("DoubleMetaphone::new({l:?}) encode_alternate"), t, i, move |s| d.encode_alternate(s), |i, s| {
            m::double_metaphone::double_metaphone(LIMITS[i], s).alternate
        });
        let d = new();
        op(&mut v, "double-metaphone", format!("DoubleMetaphone::new({l:?}) double_metaphone"), t, i, move |s| {
            let r = d.double_metaphone(s);
            format!("{}/{}", r.primary(), r.alternate())
        }, |i, s| {
            let r = m::double_metaphone::double_metaphone(LIMITS[i], s);
            format!("{}/{}", r.primary, r.alternate)
        });
    }
    let t = enc::CAVERPHONE_TOKENS;
    enc_op(&mut v, "caverphone", "Caverphone1", t, 0, Caverphone1, |_, s| m::caverphone::caverphone1(s));
    enc_op(&mut v, "caverphone", "Caverphone2", t, 0, Caverphone2, |_, s| m::caverphone::caverphone2(s));
    enc_op(&mut v, "cologne", "Cologne", enc::COLOGNE.tokens, 0, Cologne, |_, s| m::cologne::cologne(s));
    enc_op(&mut v, "nysiis", "Nysiis strict", enc::NYSIIS.tokens, 0, Nysiis::default(), |_, s| m::nysiis::nysiis(true, s));
    enc_op(&mut v, "nysiis", "Nysiis not strict", enc::NYSIIS.tokens, 0, Nysiis::new(false), |_, s| m::nysiis::nysiis(false, s));
    for (i, l) in PHONEX_LENGTHS.iter().enumerate() {
        enc_op(&mut v, "phonex", format!("Phonex::new({l})"), enc::PHONEX.tokens, i, Phonex::new(*l), |i, s| {
            m::phonex::phonex(PHONEX_LENGTHS[i], s)
        });
    }
    enc_op(&mut v, "match-rating", "MatchRatingApproach", enc::MRA_TOKENS, 0, MatchRatingApproach, |_, s| m::mra::encode(s));
    let t = dm::DM_TOKENS;
    let build = |fold: bool| DaitchMokotoffSoundexBuilder::default().ascii_folding(fold).build();
    for (i, fold) in [true, false].into_iter().enumerate() {
        for branching in [false, true] {
            let Ok(e) = build(fold) else { panic!("VIOLATES: the embedded Daitch-Mokotoff rules must load") };
            let f: fn(usize, &str) -> String = if branching {
                |i, s| DM.with(|d| d.codes(s, i == 0, true).join("|"))
            } else {
                |i, s| DM.with(|d| d.codes(s, i == 0, false)[0].clone())
            };
            op(&mut v, "daitch-mokotoff", format!("DaitchMokotoffSoundex folding={fold} branching={branching}"), t, i, move |s| {
                if branching { e.soundex(s) } else { e.encode(s) }
            }, f);
        }
    }
    for which in 0..2usize {
        match DaitchMokotoffSoundexBuilder::with_rules(tiny_dm(which)).build() {
            Ok(e) => op(&mut v, "daitch-mokotoff", format!("DaitchMokotoffSoundex with other rules ({which})"), t, which, move |s| e.soundex(s), |i, s| {
                TINY_DM.with(|d| d[i].codes(s, true, true).join("|"))
            }),
            Err(e) => panic!("VIOLATES: valid rules must load: {e}"),
        }
        enc_op(&mut v, "soundex", format!("Soundex with another mapping ({which})"), enc::SOUNDEX.tokens, which, Soundex::new(other_mapping(which), which == 0), |i, s| {
            m::soundex::soundex(&other_mapping(i), i == 0, s)
        });
        enc_op(&mut v, "refined-soundex", format!("RefinedSoundex with another mapping ({which})"), enc::REFINED.tokens, which, RefinedSoundex::new(other_mapping(which)), |i, s| {
            m::soundex::refined(&other_mapping(i), s)
        });
    }
    // comparisons
    let (d, g) = (Soundex::default(), Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX));
    pair_op(&mut v, "soundex", "Soundex::default difference", 0, move |a, b| d.difference(a, b).to_string(), |_, a, b| {
        let c = |s: &str| m::soundex::soundex(&m::soundex::default_mapping(), true, s);
        m::soundex::difference(&c(a), &c(b)).to_string()
    });
    pair_op(&mut v, "soundex", "Soundex genealogy difference", 0, move |a, b| g.difference(a, b).to_string(), |_, a, b| {
        let c = |s: &str| m::soundex::soundex(&m::soundex::genealogy_mapping(), false, s);
        m::soundex::difference(&c(a), &c(b)).to_string()
    });
    pair_op(&mut v, "soundex", "Soundex::default equality", 0, move |a, b| d.is_encoded_equals(a, b).to_string(), |_, a, b| {
        let c = |s: &str| m::soundex::soundex(&m::soundex::default_mapping(), true, s);
        (c(a) == c(b)).to_string()
    });
    let r = RefinedSoundex::default();
    pair_op(&mut v, "refined-soundex", "RefinedSoundex difference", 0, move |a, b| r.difference(a, b).to_string(), |_, a, b| {
        let c = |s: &str| m::soundex::refined(&m::soundex::refined_mapping(), s);
        m::soundex::difference(&c(a), &c(b)).to_string()
    });
    pair_op(&mut v, "refined-soundex", "RefinedSoundex equality", 0, move |a, b| r.is_encoded_equals(a, b).to_string(), |_, a, b| {
        let c = |s: &str| m::soundex::refined(&m::soundex::refined_mapping(), s);
        (c(a) == c(b)).to_string()
    });
    for (i, l) in LIMITS.iter().enumerate() {
        let e = Metaphone::new(*l);
        pair_op(&mut v, "metaphone", format!("Metaphone::new({l:?}) equality"), i, move |a, b| e.is_encoded_equals(a, b).to_string(), |i, a, b| {
            (m::metaphone::metaphone(LIMITS[i], a) == m::metaphone::metaphone(LIMITS[i], b)).to_string()
        });
        let e = DoubleMetaphone::new(*l);
        pair_op(&mut v, "double-metaphone", format!("DoubleMetaphone::new({l:?}) equality of both codes"), i, move |a, b| {
            format!("{} {}", e.is_double_metaphone_equal(a, b, false), e.is_double_metaphone_equal(a, b, true))
        }, |i, a, b| {
            let (x, y) = (m::double_metaphone::double_metaphone(LIMITS[i], a), m::double_metaphone::double_metaphone(LIMITS[i], b));
            format!("{} {}", x.primary == y.primary, x.alternate == y.alternate)
        });
    }
    pair_op(&mut v, "caverphone", "Caverphone equality", 0, |a, b| format!("{} {}", Caverphone1.is_encoded_equals(a, b), Caverphone2.is_encoded_equals(a, b)), |_, a, b| {
        use m::caverphone::*;
        format!("{} {}", caverphone1(a) == caverphone1(b), caverphone2(a) == caverphone2(b))
    });
    pair_op(&mut v, "cologne", "Cologne equality", 0, |a, b| Cologne.is_encoded_equals(a, b).to_string(), |_, a, b| {
        (m::cologne::cologne(a) == m::cologne::cologne(b)).to_string()
    });
    pair_op(&mut v, "nysiis", "Nysiis equality", 0, |a, b| Nysiis::default().is_encoded_equals(a, b).to_string(), |_, a, b| {
        (m::nysiis::nysiis(true, a) == m::nysiis::nysiis(true, b)).to_string()
    });
    pair_op(&mut v, "phonex", "Phonex equality", 0, |a, b| Phonex::default().is_encoded_equals(a, b).to_string(), |_, a, b| {
        (m::phonex::phonex(4, a) == m::phonex::phonex(4, b)).to_string()
    });
    pair_op(&mut v, "match-rating", "MatchRatingApproach comparison", 0, |a, b| MatchRatingApproach.is_encoded_equals(a, b).to_string(), |_, a, b| {
        m::mra::equal(a, b).to_string()
    });
    v
}

pub fn light_table() -> &'static [Op] {
    thread_local! {
        static T: &'static [Op] = Box::leak(light_ops().into_boxed_slice());
    }
    T.with(|t| *t)
}

/// The encoders as trait objects: (family, name, encoder)
pub fn encoders() -> &'static [(&'static str, String, Box<dyn Encoder>)] {
    thread_local! {
        static T: &'static [(&'static str, String, Box<dyn Encoder>)] = {
            let mut v: Vec<(&'static str, String, Box<dyn Encoder>)> = vec![];
            v.push(("soundex", "Soundex::default".into(), Box::new(Soundex::default())));
            v.push(("soundex", "Soundex genealogy".into(), Box::new(Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX))));
            v.push(("soundex", "Soundex without H/W case".into(), Box::new(Soundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, false))));
            v.push(("refined-soundex", "RefinedSoundex".into(), Box::new(RefinedSoundex::default())));
            for l in LIMITS {
                v.push(("metaphone", format!("Metaphone {l:?}"), Box::new(Metaphone::new(*l))));
                v.push(("double-metaphone", format!("DoubleMetaphone {l:?}"), Box::new(DoubleMetaphone::new(*l))));
            }
            v.push(("caverphone", "Caverphone1".into(), Box::new(Caverphone1)));
            v.push(("caverphone", "Caverphone2".into(), Box::new(Caverphone2)));
            v.push(("cologne", "Cologne".into(), Box::new(Cologne)));
            v.push(("nysiis", "Nysiis strict".into(), Box::new(Nysiis::new(true))));
            v.push(("nysiis", "Nysiis".into(), Box::new(Nysiis::new(false))));
            for l in PHONEX_LENGTHS {
                v.push(("phonex", format!("Phonex {l}"), Box::new(Phonex::new(*l))));
            }
            v.push(("match-rating", "MatchRatingApproach".into(), Box::new(MatchRatingApproach)));
            for fold in [true, false] {
                let Ok(e) = DaitchMokotoffSoundexBuilder::default().ascii_folding(fold).build() else {
                    panic!("VIOLATES: the embedded Daitch-Mokotoff rules must load")
                };
                v.push(("daitch-mokotoff", format!("DaitchMokotoffSoundex folding={fold}"), Box::new(e)));
            }
            for i in [0usize, 1, 2, 3, 6] {
                let o = bm_opts(i);
                v.push(("bm-embedded", format!("BeiderMorse {o:?}"), Box::new(bm::encoder(bm::embedded(), &o))));
            }
            Box::leak(v.into_boxed_slice())
        };
    }
    T.with(|t| *t)
}

pub fn family_tokens(f: &str) -> &'static [&'static str] {
    match f {
        "soundex" => enc::SOUNDEX.tokens,
        "refined-soundex" => enc::REFINED.tokens,
        "metaphone" => enc::METAPHONE_TOKENS,
        "double-metaphone" => enc::DOUBLE_METAPHONE_TOKENS,
        "caverphone" => enc::CAVERPHONE_TOKENS,
        "cologne" => enc::COLOGNE.tokens,
        "nysiis" => enc::NYSIIS.tokens,
        "phonex" => enc::PHONEX.tokens,
        "match-rating" => enc::MRA_TOKENS,
        "daitch-mokotoff" => dm::DM_TOKENS,
        _ => gen::NAMES,
    }
}

pub const FAMILIES: &[&str] = &[
    "soundex", "refined-soundex", "metaphone", "double-metaphone", "caverphone", "cologne", "nysiis", "phonex",
    "match-rating", "daitch-mokotoff", "bm-embedded",
];

/// A text directed at one family.
pub fn family_text(f: &str) -> BoxedStrategy<String> {
    if f.starts_with("bm") {
        bm::any_text(Nt::Gen)
    } else {
        proptest::prop_oneof![80 => gen::mixture(family_tokens(f)), 1 => gen::lengthy(gen::mixture(family_tokens(f)), 300)].boxed()
    }
}
