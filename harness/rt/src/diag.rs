//! Does a message describe a failure?
use crate::model::*;

pub fn arg_text(sm: &SlotMeta, args: &[u64]) -> String {
    args.iter()
        .enumerate()
        .map(|(i, a)| match sm.dbg.get(i) {
            Some(Some(v)) => v[*a as usize].clone(),
            _ => "?".into(),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn matcher_text(m: &Matcher) -> String {
    match m {
        Matcher::Any => "<anything>".into(),
        Matcher::Fun { st: false, .. } => "<function>".into(),
        Matcher::Fun { st: true, .. } => "<single threaded function>".into(),
        Matcher::With(ps) => ps.iter().enumerate().map(|(i, p)| crate::env::pred_text(p, i)).collect::<Vec<_>>().join(", "),
    }
}

fn has_number(t: &str, n: usize) -> bool {
    let n = n.to_string();
    t.split(|c: char| !c.is_ascii_digit()).any(|w| w == n)
}

/// Each kind of failure has to name the function; calls that nothing serves
/// have to show the arguments; failures of an expectation have to show its
/// matcher, and if they are about its count, the count and the bound.
pub fn explains(meta: &Meta, f: &Failure, text: &str) -> bool {
    let sm = &meta.slots[f.slot];
    let mt = f.matcher.as_ref().map(matcher_text);
    let call = format!("{}({})", sm.path, arg_text(sm, &f.args));
    // functions of modules are named without the module, except in complaints
    // about a call
    let named = if sm.cls.is_none() {
        let bare = sm.path.rsplit("::").next().unwrap();
        text.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '#')).any(|w| w == bare)
    } else {
        text.contains(&sm.path)
    };
    let exp = |s: &str| mt.as_ref().map_or(false, |m| s.contains(&format!("Expectation({m})")));
    // the part after the matcher, where the numbers are
    let rest = match &mt {
        Some(m) => text.split_once(&format!("Expectation({m})")).map_or(text, |x| x.1),
        None => text,
    };
    match f.why {
        Why::NoMatch => text.contains(&call) && text.contains("No matching expectation"),
        Why::Sequence => text.contains(&call) && text.contains("sequence"),
        Why::Over if f.bound == 0 => named && exp(text) && rest.contains("should not have been called"),
        Why::Over => named && exp(text) && has_number(rest, f.count) && has_number(rest, f.bound) && rest.contains("more"),
        Why::TooFew => named && exp(text) && has_number(rest, f.count) && has_number(rest, f.bound) && rest.contains("fewer"),
        Why::TooMany => named && exp(text) && has_number(rest, f.count) && has_number(rest, f.bound) && rest.contains("more"),
        Why::Twice => text.contains("twice") && named && exp(text) || text.contains("Poison"),
        Why::NoReturn => named && exp(text) && text.contains(if meta.nightly { "Default" } else { "default" }) || text.contains("Poison"),
        Why::BadTimes => text.to_lowercase().contains("range"),
        Why::NotExact => text.contains("exact"),
        Why::WrongThread | Why::User | Why::Matcher => true,
    }
}
