//! Conformance of the letter-rule encoders to their reference models.

use crate::ensure_eq;
use crate::fw::*;
use crate::gen;
use crate::models as m;
use proptest::prelude::*;
use proptest::sample::select;
use rphonetic::*;
use std::sync::OnceLock;

pub struct Spec {
    /// outputs of the code under test, labelled
    pub cut: fn(&str) -> Vec<(&'static str, String)>,
    /// outputs of the reference model, same order
    pub model: fn(&str) -> Vec<String>,
    pub tokens: &'static [&'static str],
    /// exhaustive small scope: alphabet and longest length (quick, thorough)
    pub alphabet: &'static str,
    pub depth: (u32, u32),
    /// a reduced alphabet explored deeper
    pub reduced: &'static str,
    pub reduced_depth: (u32, u32),
    /// what stands around each Unicode scalar in the sweep
    pub around: &'static [(&'static str, &'static str)],
    pub random: (u64, u64),
}

fn letters(s: &str) -> usize {
    s.chars().filter(|c| c.is_alphabetic()).count()
}

pub fn compare(spec: &'static Spec, s: &str, obs: &mut Obs) -> CheckResult {
    let got = (spec.cut)(s);
    let want = (spec.model)(s);
    for ((label, g), w) in got.iter().zip(&want) {
        ensure_eq!(g, w, "{label} of {s:?}");
    }
    obs.evals(want.len() as u64);
    obs.nontrivial_if(letters(s) >= 2 && want.iter().any(|w| !w.is_empty()));
    obs.label_if(!s.is_ascii(), "non-ascii");
    obs.label_if(s.chars().count() > 12, "long");
    obs.label_if(s.chars().any(|c| !c.is_alphabetic()), "has non-letters");
    Ok(())
}

const AZ: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";

pub fn conformance(spec: &'static Spec) -> Vec<Section> {
    let alpha: &'static [char] = Box::leak(spec.alphabet.chars().collect::<Vec<_>>().into_boxed_slice());
    let red: &'static [char] = Box::leak(spec.reduced.chars().collect::<Vec<_>>().into_boxed_slice());
    let mut v = vec![
        exhaustive(
            "exhaustive-letters",
            "every string over the alphabet up to the length bound, shortest first; non-trivial: two letters or more and a non-empty code",
            move |t| gen::count_strings(alpha.len(), if t == Tier::Quick { spec.depth.0 } else { spec.depth.1 }),
            move |i| gen::nth_string(alpha, i),
            move |s: &String, obs: &mut Obs| compare(spec, s, obs),
        ),
        exhaustive(
            "unicode-sweep",
            "every Unicode scalar value alone and inside fixed surroundings; non-trivial: as above",
            move |_| gen::SCALARS * spec.around.len() as u64,
            move |i| {
                let n = spec.around.len() as u64;
                let (a, b) = spec.around[(i % n) as usize];
                format!("{a}{}{b}", gen::nth_char(i / n))
            },
            move |s: &String, obs: &mut Obs| compare(spec, s, obs),
        ),
        random(
            "texts",
            "texts assembled from the algorithm's trigger strings, letters, punctuation and non-ASCII characters in any casing; non-trivial: as above, counted as distinct texts",
            spec.random.0,
            spec.random.1,
            move |_| {
                prop_oneof![12 => gen::mixture(spec.tokens), 1 => gen::noisy(gen::NAMES, 3)].boxed()
            },
            move |s: &String, obs: &mut Obs| compare(spec, s, obs),
        ),
        random(
            "long-texts",
            "such texts repeated to 20 to 700 characters, lengths around powers of two among them; non-trivial: as above",
            spec.random.0 / 40,
            spec.random.1 / 40,
            move |_| gen::lengthy(gen::mixture(spec.tokens), 700),
            move |s: &String, obs: &mut Obs| compare(spec, s, obs),
        ),
        random(
            "very-long-texts",
            "such texts repeated to 700 to 70,000 characters (8,200 for Metaphone); non-trivial: as above",
            400,
            10_000,
            // the time Metaphone takes is quadratic in the length
            move |_| gen::very_long(gen::mixture(spec.tokens), if std::ptr::eq(spec, &METAPHONE) { 8_200 } else { 70_000 }),
            move |s: &String, obs: &mut Obs| compare(spec, s, obs),
        ),
    ];
    if !spec.reduced.is_empty() {
        v.insert(
            1,
            exhaustive(
                "exhaustive-reduced",
                "every string over a reduced alphabet (letters that take part in context rules), longer bound; non-trivial: as above",
                move |t| {
                    gen::count_strings(red.len(), if t == Tier::Quick { spec.reduced_depth.0 } else { spec.reduced_depth.1 })
                },
                move |i| gen::nth_string(red, i),
                move |s: &String, obs: &mut Obs| compare(spec, s, obs),
            ),
        );
    }
    v
}

const AROUND: &[(&str, &str)] = &[("", ""), ("A", ""), ("", "B"), ("TS", "CH"), ("Br", "ow")];

macro_rules! lazy {
    ($name:ident, $t:ty, $e:expr) => {
        fn $name() -> &'static $t {
            static C: OnceLock<$t> = OnceLock::new();
            C.get_or_init(|| $e)
        }
    };
}

lazy!(sx_maps, [[char; 26]; 2], [m::soundex::default_mapping(), m::soundex::genealogy_mapping()]);
lazy!(rx_map, [char; 26], m::soundex::refined_mapping());

pub static SOUNDEX: Spec = Spec {
    cut: |s| {
        vec![
            ("Soundex::default", Soundex::default().encode(s)),
            ("Soundex genealogy", Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX).encode(s)),
            ("Soundex without H/W case", Soundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, false).encode(s)),
        ]
    },
    model: |s| {
        let [d, g] = sx_maps();
        vec![
            m::soundex::soundex(d, true, s),
            m::soundex::soundex(g, false, s),
            m::soundex::soundex(d, false, s),
        ]
    },
    tokens: &[
        "B", "F", "P", "V", "C", "G", "J", "K", "Q", "S", "X", "Z", "D", "T", "L", "M", "N", "R", "H", "W", "HW", "A",
        "E", "I", "O", "U", "Y", "SHC", "CK", "BHF", "ZWS", "MN", "DOT", "'", "-", " ",
    ],
    alphabet: AZ,
    depth: (5, 6),
    reduced: "ABCDLMRHW",
    reduced_depth: (6, 7),
    around: AROUND,
    random: (1_600_000, 32_000_000),
};

pub static REFINED: Spec = Spec {
    cut: |s| {
        vec![
            ("RefinedSoundex::default", RefinedSoundex::default().encode(s)),
        ]
    },
    model: |s| vec![m::soundex::refined(rx_map(), s)],
    tokens: &[
        "B", "P", "F", "V", "C", "K", "S", "G", "J", "Q", "X", "Z", "D", "T", "L", "M", "N", "R", "H", "W", "A", "E",
        "I", "O", "U", "Y", "BP", "CKS", "AEIO", "HW", "'", "-", " ",
    ],
    alphabet: AZ,
    depth: (5, 6),
    reduced: "ABFCGQDLMR",
    reduced_depth: (6, 7),
    around: AROUND,
    random: (1_600_000, 32_000_000),
};

pub const METAPHONE_TOKENS: &[&str] = &[
    "KN", "GN", "PN", "AE", "WR", "WH", "X", "MB", "SCE", "SCI", "SCY", "SCH", "CIA", "CE", "CI", "CY", "CH", "CHA",
    "CHR", "C", "CC", "DGE", "DGI", "DGY", "DG", "GH", "GHT", "GHA", "GN", "GNED", "GE", "GI", "GY", "GG", "GGE",
    "G", "H", "TH", "PH", "SH", "SIO", "SIA", "TIA", "TIO", "TCH", "TTH", "K", "CK", "Q", "V", "W", "WA", "Y", "YE",
    "XX", "Z", "S", "SS", "B", "BB", "M", "A", "E", "I", "O", "U", "F", "J", "L", "N", "P", "R", "T", "D",
];

pub static METAPHONE: Spec = Spec {
    cut: |s| {
        vec![
            ("Metaphone::default", Metaphone::default().encode(s)),
            ("Metaphone without limit", Metaphone::new(None).encode(s)),
        ]
    },
    model: |s| vec![m::metaphone::metaphone(Some(4), s), m::metaphone::metaphone(None, s)],
    tokens: METAPHONE_TOKENS,
    alphabet: AZ,
    depth: (5, 6),
    reduced: "AEICDGHKMNSTW",
    reduced_depth: (5, 6),
    around: &[("", ""), ("", "S"), ("A", "Sch"), ("D", "ge"), ("tc", "hi"), ("", "NIGHT")],
    random: (2_000_000, 40_000_000),
};

pub const DOUBLE_METAPHONE_TOKENS: &[&str] = &[
    "GN", "KN", "PN", "WR", "PS", "B", "BB", "CHIA", "ACH", "BACHER", "MACHER", "CAESAR", "CHAE", "HARAC", "CHARAC",
    "CHARIS", "CHOR", "CHYM", "CHIA", "CHEM", "CHORE", "VAN ", "VON ", "SCH", "ORCHES", "ARCHIT", "ORCHID", "CHT",
    "CHS", "CH", "CHL", "CHR", "MC", "CZ", "WICZ", "WITZ", "CIA", "CCIA", "CC", "CCI", "CCE", "CCH", "CCHU", "ACCE",
    "UCCEE", "UCCES", "CK", "CG", "CQ", "CI", "CE", "CY", "CIO", "CIE", "C C", "C Q", "C G", "CCE", "DG", "DGI",
    "DGE", "DGY", "DT", "DD", "F", "FF", "GH", "GHI", "BAUGH", "UGH", "CAUGH", "IGH", "DAUGH", "AGN", "GNEY", "GLI",
    "GES", "GEP", "GEB", "GEL", "GEY", "GIB", "GIL", "GIN", "GIE", "GEI", "GER", "GY", "DANGER", "RANGER", "MANGER",
    "RGY", "OGY", "AGGI", "OGGI", "GET", "GIER", "GG", "H", "HH", "AHA", "JOSE", "JOSE ", "SAN ", "J", "JJ", "AJA",
    "AJO", "LJ", "K", "KK", "L", "LL", "ILLO", "ILLA", "ALLE", "ALLEAS", "ALLEO", "M", "MM", "UMB", "UMBER", "N", "NN",
    "P", "PH", "PP", "PB", "Q", "QQ", "R", "RR", "IER", "MEIER", "MAIER", "LIER", "ISL", "YSL", "SUGAR", "SH",
    "SHEIM", "SHOEK", "SHOLM", "SHOLZ", "SIO", "SIA", "SIAN", "SM", "SN", "SL", "SW", "SZ", "SCHOO", "SCHER", "SCHEN",
    "SCHUY", "SCHED", "SCHEM", "SCI", "SCE", "SCY", "SC", "AIS", "OIS", "SS", "TION", "TIA", "TCH", "TH", "TTH",
    "THOM", "THAM", "TT", "TD", "V", "VV", "W", "WA", "WH", "EWSKI", "EWSKY", "OWSKI", "OWSKY", "X", "IAUX", "EAUX",
    "AUX", "OUX", "XC", "XX", "Z", "ZH", "ZZ", "ZZO", "ZZI", "ZZA", "TZ", "A", "E", "I", "O", "U", "Y", " ", "Ç", "Ñ",
    "ç", "ñ",
];

pub static DOUBLE_METAPHONE: Spec = Spec {
    cut: |s| {
        let d = DoubleMetaphone::default();
        let n = DoubleMetaphone::new(None);
        let r = d.double_metaphone(s);
        let u = n.double_metaphone(s);
        vec![
            ("primary (limit 4)", r.primary()),
            ("alternate (limit 4)", r.alternate()),
            ("primary (no limit)", u.primary()),
            ("alternate (no limit)", u.alternate()),
            ("encode", d.encode(s)),
            ("encode_alternate", n.encode_alternate(s)),
            ("display", r.to_string()),
        ]
    },
    model: |s| {
        let r = m::double_metaphone::double_metaphone(Some(4), s);
        let u = m::double_metaphone::double_metaphone(None, s);
        let disp = format!("[primary={}, alternate={}]", r.primary, r.alternate);
        vec![r.primary.clone(), r.alternate, u.primary, u.alternate.clone(), r.primary, u.alternate, disp]
    },
    tokens: DOUBLE_METAPHONE_TOKENS,
    alphabet: AZ,
    depth: (5, 6),
    reduced: "ACGHIKNSTZ",
    reduced_depth: (5, 6),
    around: &[("", ""), ("", "S"), ("AC", "H"), ("", "ILLA"), ("SA", "ougher"), ("SCH", "ais")],
    random: (3_200_000, 48_000_000),
};

pub const CAVERPHONE_TOKENS: &[&str] = &[
    "cough", "rough", "tough", "enough", "trough", "gn", "mb", "cq", "ci", "ce", "cy", "tch", "c", "q", "x", "v", "dg",
    "tio", "tia", "d", "ph", "b", "sh", "z", "a", "e", "i", "o", "u", "ogha", "gh", "g", "s", "t", "p", "k", "f", "m",
    "n", "ss", "tt", "pp", "kk", "ff", "mm", "nn", "wa", "wy", "wha", "why", "w", "h", "ra", "ry", "r", "la", "ly",
    "l", "j", "ja", "y", "ya", "w3", "aw", "ar", "al", "'", "-", " ",
];

pub static CAVERPHONE: Spec = Spec {
    cut: |s| {
        vec![
            ("Caverphone1", Caverphone1.encode(s)),
            ("Caverphone2", Caverphone2.encode(s)),
        ]
    },
    model: |s| vec![m::caverphone::caverphone1(s), m::caverphone::caverphone2(s)],
    tokens: CAVERPHONE_TOKENS,
    alphabet: "abcdefghijklmnopqrstuvwxyz",
    depth: (4, 4),
    reduced: "aghlmbrwy",
    reduced_depth: (5, 6),
    around: &[("", ""), ("a", ""), ("", "b"), ("mnprst", "mnkpstn")],
    random: (1_200_000, 20_000_000),
};

pub static COLOGNE: Spec = Spec {
    cut: |s| vec![("Cologne", Cologne.encode(s))],
    model: |s| vec![m::cologne::cologne(s)],
    tokens: &[
        "A", "E", "I", "J", "O", "U", "Y", "B", "P", "PH", "D", "T", "DC", "TS", "TZ", "F", "V", "W", "G", "K", "Q",
        "X", "CX", "KX", "QX", "S", "Z", "C", "CA", "CH", "CL", "CR", "CE", "SC", "SCH", "ZC", "R", "L", "M", "N", "H",
        "Ä", "Ö", "Ü", "ß", "ä", "-", " ", "P-H",
    ],
    alphabet: AZ,
    depth: (5, 6),
    reduced: "ABCDHKLPSXZ",
    reduced_depth: (5, 6),
    around: &[("", ""), ("C", ""), ("", "C"), ("P", "H"), ("SC", "X"), ("DA", "0TZ")],
    random: (1_600_000, 32_000_000),
};

pub static NYSIIS: Spec = Spec {
    cut: |s| {
        vec![
            ("Nysiis strict", Nysiis::default().encode(s)),
            ("Nysiis not strict", Nysiis::new(false).encode(s)),
            ("Nysiis::new(true)", Nysiis::new(true).encode(s)),
        ]
    },
    model: |s| {
        let a = m::nysiis::nysiis(true, s);
        vec![a.clone(), m::nysiis::nysiis(false, s), a]
    },
    tokens: &[
        "MAC", "KN", "K", "PH", "PF", "SCH", "EE", "IE", "DT", "RT", "RD", "NT", "ND", "EV", "A", "E", "I", "O", "U",
        "Q", "Z", "M", "N", "H", "AHA", "AH", "HA", "W", "AW", "S", "AS", "AY", "Y", "B", "C", "D", "F", "G", "J", "L",
        "P", "R", "T", "V", "X", " ", "-", "'",
    ],
    alphabet: AZ,
    depth: (5, 6),
    reduced: "AECHKMNPSWY",
    reduced_depth: (5, 6),
    around: &[("", ""), ("A", ""), ("", "H"), ("SC", "AY"), ("MACH", "ND")],
    random: (1_600_000, 32_000_000),
};

pub static PHONEX: Spec = Spec {
    cut: |s| {
        vec![
            ("Phonex::default", Phonex::default().encode(s)),
            ("Phonex::new(1)", Phonex::new(1).encode(s)),
            ("Phonex::new(7)", Phonex::new(7).encode(s)),
        ]
    },
    model: |s| vec![m::phonex::phonex(4, s), m::phonex::phonex(1, s), m::phonex::phonex(7, s)],
    tokens: &[
        "KN", "PH", "WR", "H", "E", "I", "O", "U", "Y", "P", "V", "K", "Q", "J", "Z", "S", "SS", "B", "F", "C", "G", "X",
        "D", "T", "DC", "TC", "L", "LA", "LY", "M", "N", "MD", "NG", "ND", "MG", "R", "RA", "RB", "A", "W", " ", "-",
        "'",
    ],
    alphabet: AZ,
    depth: (5, 6),
    reduced: "ACDGHKLNPRS",
    reduced_depth: (5, 6),
    around: &[("", ""), ("A", ""), ("", "B"), ("L", "D"), ("N", "GR")],
    random: (1_600_000, 32_000_000),
};

pub const MRA_TOKENS: &[&str] = &[
    "A", "E", "I", "O", "U", "AA", "BB", "CC", "DD", "FF", "GG", "HH", "JJ", "KK", "LL", "MM", "NN", "PP", "QQ", "RR",
    "SS", "TT", "VV", "WW", "XX", "YY", "ZZ", "B", "C", "D", "F", "G", "H", "J", "K", "L", "M", "N", "P", "Q", "R", "S",
    "T", "V", "W", "X", "Y", "Z", "BBB", "-", "&", "'", ".", ",", " ", "é", "À", "ÿ", "Ç", "ñ", "ő", "Ű", "Ŷ", "Smith",
    "Franc",
];

pub static MRA: Spec = Spec {
    cut: |s| vec![("MatchRatingApproach", MatchRatingApproach.encode(s))],
    model: |s| vec![m::mra::encode(s)],
    tokens: MRA_TOKENS,
    alphabet: AZ,
    depth: (5, 6),
    reduced: "AEBCD-",
    reduced_depth: (7, 9),
    around: &[("", ""), ("a", ""), ("", "B"), ("-", "-"), ("bcd", "fgh"), ("AB", "BC")],
    random: (1_600_000, 32_000_000),
};

fn mapping_strategy() -> BoxedStrategy<Vec<char>> {
    let ch = prop_oneof![
        6 => prop::char::range('0', '9'),
        2 => Just('-'),
        1 => prop::char::range('A', 'Z'),
        1 => any::<char>(),
    ];
    let full = proptest::collection::vec(ch, 26);
    let few = proptest::collection::vec(prop_oneof![Just('0'), Just('1'), Just('2'), Just('-')], 26);
    prop_oneof![full, few].boxed()
}

fn arr(v: &[char]) -> Option<[char; 26]> {
    v.to_vec().try_into().ok()
}

fn soundex_props() -> Vec<Section> {
    let mut v = conformance(&SOUNDEX);
    v.push(random(
        "custom-mappings",
        "a random 26-entry mapping (digits, silent '-', letters, any character), a random H/W flag and a text; every constructor; non-trivial: the text has two letters or more, counted as distinct (mapping, flag, text)",
        800_000,
        16_000_000,
        |_| (mapping_strategy(), any::<bool>(), gen::mixture(SOUNDEX.tokens)).boxed(),
        |(map, flag, text): &(Vec<char>, bool, String), obs: &mut Obs| {
            let Some(a) = arr(map) else { return Ok(()) };
            ensure_eq!(Soundex::new(a, *flag).encode(text), m::soundex::soundex(&a, *flag, text), "Soundex::new(.., {flag}) of {text:?}");
            // the H/W case applies unless the mapping has silent entries
            let auto = !map.contains(&'-');
            let want = m::soundex::soundex(&a, auto, text);
            let s: String = map.iter().collect();
            ensure_eq!(Soundex::from(a).encode(text), want, "Soundex::from of {text:?}");
            for (l, r) in [
                ("try_from(&str)", Soundex::try_from(s.as_str())),
                ("try_from(String)", Soundex::try_from(s.clone())),
                ("parse", s.parse::<Soundex>()),
            ] {
                match r {
                    Ok(x) => {
                        ensure_eq!(x.encode(text), want, "{l} of {text:?}");
                        ensure_eq!(x, Soundex::from(a), "{l} encoder");
                    }
                    Err(e) => return Err(format!("{l} rejected a 26 character mapping: {e:?}")),
                }
            }
            obs.evals(5);
            obs.nontrivial_if(letters(text) >= 2);
            obs.label_if(!auto, "silent entries");
            Ok(())
        },
    ));
    v.push(random(
        "mapping-length",
        "mapping texts of 0 to 60 characters (one or several bytes each): accepted if and only if 26 characters; non-trivial: not 26 bytes long, counted as distinct texts",
        240_000,
        2_400_000,
        |_| {
            let ch = prop_oneof![4 => prop::char::range('0', '9').prop_map(|c| c.to_string()), 1 => gen::odd(), 1 => Just("-".to_string())];
            prop_oneof![
                proptest::collection::vec(ch.clone(), 0..60),
                proptest::collection::vec(ch, 24..29),
            ]
            .prop_map(|v| v.concat())
            .boxed()
        },
        |s: &String, obs: &mut Obs| mapping_length(s, obs),
    ));
    v.push(random(
        "difference",
        "two texts: difference is the number of equal positions of the two codes, 0 for an empty code; non-trivial: both codes non-empty",
        600_000,
        12_000_000,
        |_| (gen::mixture(SOUNDEX.tokens), gen::mixture(SOUNDEX.tokens)).boxed(),
        |(a, b): &(String, String), obs: &mut Obs| {
            let [d, g] = sx_maps();
            let (ca, cb) = (m::soundex::soundex(d, true, a), m::soundex::soundex(d, true, b));
            ensure_eq!(Soundex::default().difference(a, b), m::soundex::difference(&ca, &cb), "difference({a:?}, {b:?})");
            let (ga, gb) = (m::soundex::soundex(g, false, a), m::soundex::soundex(g, false, b));
            ensure_eq!(Soundex::from(*g).difference(a, b), m::soundex::difference(&ga, &gb), "genealogy difference({a:?}, {b:?})");
            obs.evals(2);
            obs.nontrivial_if(!ca.is_empty() && !cb.is_empty());
            Ok(())
        },
    ));
    v
}

fn mapping_length(s: &str, obs: &mut Obs) -> CheckResult {
    let ok = s.chars().count() == 26;
    for (l, r) in [
        ("Soundex::try_from(&str)", Soundex::try_from(s).is_ok()),
        ("Soundex::try_from(String)", Soundex::try_from(s.to_string()).is_ok()),
        ("str::parse::<Soundex>", s.parse::<Soundex>().is_ok()),
        ("RefinedSoundex::try_from(&str)", RefinedSoundex::try_from(s).is_ok()),
        ("RefinedSoundex::try_from(String)", RefinedSoundex::try_from(s.to_string()).is_ok()),
        ("str::parse::<RefinedSoundex>", s.parse::<RefinedSoundex>().is_ok()),
    ] {
        ensure_eq!(r, ok, "{l} accepts {s:?}");
    }
    if let Err(e) = Soundex::try_from(s) {
        ensure_eq!(e, s.chars().collect::<Vec<char>>(), "rejected mapping handed back");
    }
    obs.evals(6);
    obs.label_if(ok, "26 characters");
    obs.nontrivial_if(s.len() != 26);
    Ok(())
}

fn refined_props() -> Vec<Section> {
    let mut v = conformance(&REFINED);
    v.push(random(
        "custom-mappings",
        "a random 26-entry mapping and a text, every constructor; non-trivial: two letters or more, counted as distinct (mapping, text)",
        800_000,
        16_000_000,
        |_| (mapping_strategy(), gen::mixture(REFINED.tokens)).boxed(),
        |(map, text): &(Vec<char>, String), obs: &mut Obs| {
            let Some(a) = arr(map) else { return Ok(()) };
            let want = m::soundex::refined(&a, text);
            let s: String = map.iter().collect();
            ensure_eq!(RefinedSoundex::new(a).encode(text), want, "RefinedSoundex::new of {text:?}");
            for (l, r) in [
                ("try_from(&str)", RefinedSoundex::try_from(s.as_str())),
                ("try_from(String)", RefinedSoundex::try_from(s.clone())),
                ("parse", s.parse::<RefinedSoundex>()),
            ] {
                match r {
                    Ok(x) => ensure_eq!(x.encode(text), want, "{l} of {text:?}"),
                    Err(e) => return Err(format!("{l} rejected a 26 character mapping: {e:?}")),
                }
            }
            obs.evals(4);
            obs.nontrivial_if(letters(text) >= 2);
            Ok(())
        },
    ));
    v.push(random(
        "mapping-length",
        "mapping texts of 0 to 60 characters: accepted if and only if 26 characters; non-trivial: not 26 bytes long, counted as distinct texts",
        240_000,
        2_400_000,
        |_| {
            let ch = prop_oneof![4 => prop::char::range('0', '9').prop_map(|c| c.to_string()), 1 => gen::odd()];
            prop_oneof![
                proptest::collection::vec(ch.clone(), 0..60),
                proptest::collection::vec(ch, 24..29),
            ]
            .prop_map(|v| v.concat())
            .boxed()
        },
        |s: &String, obs: &mut Obs| mapping_length(s, obs),
    ));
    v.push(random(
        "difference",
        "two texts: difference is the number of equal positions of the two codes; non-trivial: both codes non-empty",
        600_000,
        12_000_000,
        |_| (gen::mixture(REFINED.tokens), gen::mixture(REFINED.tokens)).boxed(),
        |(a, b): &(String, String), obs: &mut Obs| {
            let d = rx_map();
            let (ca, cb) = (m::soundex::refined(d, a), m::soundex::refined(d, b));
            ensure_eq!(RefinedSoundex::default().difference(a, b), m::soundex::difference(&ca, &cb), "difference({a:?}, {b:?})");
            obs.eval();
            obs.nontrivial_if(!ca.is_empty() && !cb.is_empty());
            Ok(())
        },
    ));
    v
}

fn limit() -> BoxedStrategy<Option<usize>> {
    prop_oneof![1 => Just(None), 12 => (0usize..12).prop_map(Some), 2 => (12usize..60).prop_map(Some), 1 => Just(Some(usize::MAX))].boxed()
}

/// A long text with a limit of its order of magnitude.
fn long_limited(tokens: &'static [&'static str]) -> BoxedStrategy<(usize, String)> {
    let n = prop_oneof![3 => 0usize..140, 3 => select(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512][..]), 2 => 140usize..700];
    (n, gen::lengthy(gen::mixture(tokens), 700)).boxed()
}

fn metaphone_props() -> Vec<Section> {
    let mut v = conformance(&METAPHONE);
    v.push(random(
        "limits",
        "a maximum length (none, 0..60) and a text; non-trivial: two letters or more",
        800_000,
        16_000_000,
        |_| (limit(), gen::mixture(METAPHONE_TOKENS)).boxed(),
        |(max, text): &(Option<usize>, String), obs: &mut Obs| {
            ensure_eq!(Metaphone::new(*max).encode(text), m::metaphone::metaphone(*max, text), "Metaphone::new({max:?}) of {text:?}");
            obs.nontrivial_if(letters(text) >= 2);
            Ok(())
        },
    ));
    v.push(random(
        "long-limits",
        "a maximum length 0..700 and a text of 20 to 700 characters; non-trivial: the limit is over 30",
        30_000,
        600_000,
        |_| long_limited(METAPHONE_TOKENS),
        |(max, text): &(usize, String), obs: &mut Obs| {
            ensure_eq!(Metaphone::new(Some(*max)).encode(text), m::metaphone::metaphone(Some(*max), text), "Metaphone::new(Some({max})) of {text:?}");
            obs.nontrivial_if(*max > 30);
            Ok(())
        },
    ));
    v.push(random(
        "very-long-limits",
        "a maximum length 300..8,000 and a text of up to 8,200 characters; non-trivial: two letters or more",
        200,
        6_000,
        |_| very_long_limited(METAPHONE_TOKENS, 8_200, 8_000),
        |(max, text): &(usize, String), obs: &mut Obs| {
            ensure_eq!(Metaphone::new(Some(*max)).encode(text), m::metaphone::metaphone(Some(*max), text), "Metaphone limited to {max} of {text:?}");
            obs.nontrivial_if(letters(text) >= 2);
            Ok(())
        },
    ));
    v
}

fn double_metaphone_props() -> Vec<Section> {
    let mut v = conformance(&DOUBLE_METAPHONE);
    v.push(random(
        "limits",
        "a maximum length (none, 0..60), two texts: codes, and equality of primary or alternate codes; non-trivial: two letters or more in each",
        1_000_000,
        16_000_000,
        |_| {
            (
                limit(),
                gen::mixture(DOUBLE_METAPHONE_TOKENS),
                prop_oneof![
                    gen::mixture(DOUBLE_METAPHONE_TOKENS),
                    gen::words(&["S", "X", "K", "A", "T"], 3)
                ],
            )
                .boxed()
        },
        |(max, a, b): &(Option<usize>, String, String), obs: &mut Obs| {
            let d = DoubleMetaphone::new(*max);
            let (x, y) = (
                m::double_metaphone::double_metaphone(*max, a),
                m::double_metaphone::double_metaphone(*max, b),
            );
            let r = d.double_metaphone(a);
            ensure_eq!(r.primary(), x.primary, "primary, limit {max:?}, of {a:?}");
            ensure_eq!(r.alternate(), x.alternate, "alternate, limit {max:?}, of {a:?}");
            ensure_eq!(d.is_double_metaphone_equal(a, b, false), x.primary == y.primary, "primary equality of {a:?} and {b:?}");
            ensure_eq!(d.is_double_metaphone_equal(a, b, true), x.alternate == y.alternate, "alternate equality of {a:?} and {b:?}");
            obs.evals(4);
            obs.nontrivial_if(letters(a) >= 2 && letters(b) >= 2);
            obs.label_if(x.primary != x.alternate, "codes differ");
            obs.label_if(x.primary == y.primary, "primary equal");
            obs.label_if(x.alternate == y.alternate, "alternate equal");
            Ok(())
        },
    ));
    v.push(random(
        "long-limits",
        "a maximum length 0..700 and a text of 20 to 700 characters; non-trivial: the limit is over 30",
        30_000,
        600_000,
        |_| long_limited(DOUBLE_METAPHONE_TOKENS),
        |(max, text): &(usize, String), obs: &mut Obs| {
            let x = m::double_metaphone::double_metaphone(Some(*max), text);
            let r = DoubleMetaphone::new(Some(*max)).double_metaphone(text);
            ensure_eq!(r.primary(), x.primary, "primary, limit {max}, of {text:?}");
            ensure_eq!(r.alternate(), x.alternate, "alternate, limit {max}, of {text:?}");
            obs.nontrivial_if(*max > 30);
            Ok(())
        },
    ));
    v.push(random(
        "very-long-limits",
        "a maximum length 300..200,000 and a text of up to 70,000 characters; non-trivial: two letters or more",
        300,
        8_000,
        |_| very_long_limited(DOUBLE_METAPHONE_TOKENS, 70_000, usize::MAX),
        |(max, text): &(usize, String), obs: &mut Obs| {
            let x = m::double_metaphone::double_metaphone(Some(*max), text);
            let r = DoubleMetaphone::new(Some(*max)).double_metaphone(text);
            ensure_eq!(r.primary(), x.primary, "primary, limit {max}, of {text:?}");
            ensure_eq!(r.alternate(), x.alternate, "alternate, limit {max}, of {text:?}");
            obs.nontrivial_if(letters(text) >= 2);
            Ok(())
        },
    ));
    v
}

/// Limits of thousands, texts with codes of that length.
fn very_long_limited(tokens: &'static [&'static str], text: usize, limit: usize) -> BoxedStrategy<(usize, String)> {
    const EDGES: &[usize] = &[512, 999, 1000, 1024, 2000, 2048, 4096, 10_000, 16_384, 32_768, 50_000, 65_536, 100_000];
    let n = prop_oneof![2 => 300usize..3000, 1 => 3000usize..200_000, 3 => (select(EDGES), 0usize..5).prop_map(|(n, d)| n + d - 2)];
    (n.prop_map(move |n| n.min(limit)), prop_oneof![3 => gen::very_long(gen::mixture(tokens), text), 1 => gen::mixture(tokens)]).boxed()
}

fn phonex_props() -> Vec<Section> {
    let mut v = conformance(&PHONEX);
    v.push(random(
        "lengths",
        "a code length 0..40 and a text; non-trivial: two letters or more",
        800_000,
        16_000_000,
        |_| (0usize..40, gen::mixture(PHONEX.tokens)).boxed(),
        |(max, text): &(usize, String), obs: &mut Obs| {
            ensure_eq!(Phonex::new(*max).encode(text), m::phonex::phonex(*max, text), "Phonex::new({max}) of {text:?}");
            obs.nontrivial_if(letters(text) >= 2);
            Ok(())
        },
    ));
    v.push(random(
        "long-lengths",
        "a code length 0..700 and a text of 20 to 700 characters; non-trivial: the length is over 30",
        30_000,
        600_000,
        |_| long_limited(PHONEX.tokens),
        |(max, text): &(usize, String), obs: &mut Obs| {
            ensure_eq!(Phonex::new(*max).encode(text), m::phonex::phonex(*max, text), "Phonex::new({max}) of {text:?}");
            obs.nontrivial_if(*max > 30);
            Ok(())
        },
    ));
    v.push(random(
        "very-long-lengths",
        "a code length 300..200,000 and a text of up to 70,000 characters; non-trivial: two letters or more",
        400,
        10_000,
        |_| very_long_limited(PHONEX.tokens, 70_000, usize::MAX),
        |(max, text): &(usize, String), obs: &mut Obs| {
            ensure_eq!(Phonex::new(*max).encode(text), m::phonex::phonex(*max, text), "Phonex::new({max}) of {text:?}");
            obs.nontrivial_if(letters(text) >= 2);
            Ok(())
        },
    ));
    v
}

pub fn mra_pair() -> BoxedStrategy<(String, String)> {
    let edit = |s: String| {
        (Just(s), 0usize..12, prop_oneof![Just(String::new()), gen::ascii_letter(), gen::punct()], any::<bool>()).prop_map(
            |(s, at, ins, del)| {
                let mut v: Vec<char> = s.chars().collect();
                let i = at.min(v.len());
                if del && i < v.len() {
                    v.remove(i);
                }
                let i = i.min(v.len());
                v.splice(i..i, ins.chars());
                (s, v.into_iter().collect::<String>())
            },
        )
    };
    prop_oneof![
        3 => gen::mixture(MRA_TOKENS).prop_flat_map(edit),
        3 => (gen::mixture(MRA_TOKENS), gen::mixture(MRA_TOKENS)),
        3 => (gen::words(&["A", "B", "C", "D"], 7), gen::words(&["A", "B", "C", "D"], 7)),
        1 => (gen::words(&["-", "&", " ", ".", "é", "Ж"], 3), gen::words(&["A", "B", "-", "é", "Ж"], 4)),
    ]
    .boxed()
}

fn mra_props() -> Vec<Section> {
    let mut v = conformance(&MRA);
    v.push(random(
        "comparison",
        "pairs of names: unrelated, one edit apart, over a 4-letter alphabet, or mostly punctuation; non-trivial: the lengths of the two codes differ by less than 3 and the names are not the same, counted as distinct pairs",
        2_000_000,
        40_000_000,
        |_| mra_pair(),
        |(a, b): &(String, String), obs: &mut Obs| {
            let want = m::mra::equal(a, b);
            ensure_eq!(MatchRatingApproach.is_encoded_equals(a, b), want, "is_encoded_equals({a:?}, {b:?})");
            ensure_eq!(MatchRatingApproach.is_encoded_equals(b, a), m::mra::equal(b, a), "is_encoded_equals({b:?}, {a:?})");
            obs.evals(2);
            let (x, y) = (m::mra::encode(a).chars().count(), m::mra::encode(b).chars().count());
            obs.nontrivial_if(a != b && x.abs_diff(y) < 3);
            obs.label_if(want, "match");
            obs.label_if(!want, "no match");
            obs.label_if(x + y > 11, "long codes");
            Ok(())
        },
    ));
    v.push(exhaustive(
        "comparison-exhaustive",
        "every pair of consonant strings over {B,C,D} (each up to 4 letters, 5 in thorough); non-trivial: different strings",
        |t| {
            let n = gen::count_strings(3, if t == Tier::Quick { 5 } else { 6 });
            n * n
        },
        |i| {
            // triangular walk so that small pairs come first
            let k = ((i as f64).sqrt()) as u64;
            let k = if k * k > i { k - 1 } else if (k + 1) * (k + 1) <= i { k + 1 } else { k };
            let r = i - k * k;
            let (x, y) = if r < k { (r, k) } else { (k, r - k) };
            let al = ['B', 'C', 'D'];
            (gen::nth_string(&al, x), gen::nth_string(&al, y))
        },
        |(a, b): &(String, String), obs: &mut Obs| {
            ensure_eq!(MatchRatingApproach.is_encoded_equals(a, b), m::mra::equal(a, b), "is_encoded_equals({a:?}, {b:?})");
            obs.nontrivial_if(a != b);
            Ok(())
        },
    ));
    v
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C03", assumptions: &[], sections: soundex_props },
        Property { id: "C04", assumptions: &[], sections: refined_props },
        Property { id: "C05", assumptions: &[], sections: metaphone_props },
        Property { id: "C06", assumptions: &[], sections: double_metaphone_props },
        Property { id: "C07", assumptions: &[], sections: || conformance(&CAVERPHONE) },
        Property { id: "C08", assumptions: &[], sections: || conformance(&COLOGNE) },
        Property { id: "C09", assumptions: &[], sections: || conformance(&NYSIIS) },
        Property { id: "C10", assumptions: &[], sections: phonex_props },
        Property { id: "C11", assumptions: &[], sections: mra_props },
    ]
}
