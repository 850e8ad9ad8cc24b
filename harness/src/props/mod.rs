use crate::fw::Property;

pub mod bm;
pub mod dm;
pub mod enc;
pub mod laws;
pub mod ops;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(laws::properties());
    v.extend(enc::properties());
    v.extend(dm::properties());
    v.extend(bm::properties());
    v.sort_by_key(|p| p.id);
    v
}

pub fn subject(args: &[String]) -> ! {
    match args.first().map(|s| s.as_str()) {
        Some(what @ ("history" | "stream")) => laws::subject(what),
        _ => std::process::exit(2),
    }
}
