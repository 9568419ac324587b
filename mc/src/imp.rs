//! The implementation, in the vocabulary of the reference model.

use crate::run::guard;
use crate::spec::{Mode, Num, Src, Ty, E};
pub use phonenumber as ph;
use phonenumber::metadata::Database;
use phonenumber::{country, PhoneNumber};

pub type Hint = Option<country::Id>;

pub fn id(s: &str) -> country::Id {
    s.parse().unwrap_or_else(|_| panic!("no country {s}"))
}

pub fn src(s: country::Source) -> Src {
    match s {
        country::Source::Plus => Src::Plus,
        country::Source::Idd => Src::Idd,
        country::Source::Number => Src::Number,
        country::Source::Default => Src::Default,
    }
}

pub fn num(n: &PhoneNumber) -> Num {
    Num {
        code: n.code().value(),
        src: src(n.code().source()),
        nsn: n.national().to_string(),
        ext: n.extension().map(|e| e.to_string()),
        carrier: n.carrier().map(|e| e.to_string()),
    }
}

pub fn err(e: &ph::ParseError) -> E {
    use ph::ParseError as P;
    match e {
        P::NoNumber => E::NoNumber,
        P::InvalidCountryCode => E::InvalidCountryCode,
        P::TooShortNsn => E::TooShortNsn,
        P::TooShortAfterIdd => E::TooShortAfterIdd,
        P::TooLong => E::TooLong,
        P::MalformedInteger(_) => E::MalformedInteger,
    }
}

pub fn ty(t: ph::Type) -> Option<Ty> {
    use ph::Type as T;
    Some(match t {
        T::FixedLine => Ty::FixedLine,
        T::Mobile => Ty::Mobile,
        T::FixedLineOrMobile => Ty::FixedLineOrMobile,
        T::TollFree => Ty::TollFree,
        T::PremiumRate => Ty::PremiumRate,
        T::SharedCost => Ty::SharedCost,
        T::PersonalNumber => Ty::PersonalNumber,
        T::Voip => Ty::Voip,
        T::Pager => Ty::Pager,
        T::Uan => Ty::Uan,
        T::Voicemail => Ty::Voicemail,
        T::Unknown => Ty::Unknown,
        _ => return None,
    })
}

pub fn mode(m: Mode) -> ph::Mode {
    match m {
        Mode::E164 => ph::Mode::E164,
        Mode::International => ph::Mode::International,
        Mode::National => ph::Mode::National,
        Mode::Rfc3966 => ph::Mode::Rfc3966,
    }
}

pub fn case(hint: Hint, s: &str) -> String {
    format!("{}|{s}", hint.map(|h| h.as_ref().to_string()).unwrap_or_default())
}

/// A panic, as opposed to an error.
#[derive(Debug, Clone, PartialEq)]
pub struct Boom(pub String);

pub type Parsed = Result<Result<PhoneNumber, E>, Boom>;

pub fn parse(hint: Hint, s: &str) -> Parsed {
    guard(s, || ph::parse(hint, s)).map(|r| r.map_err(|e| err(&e))).map_err(Boom)
}

pub fn parse_with(db: &Database, hint: Hint, s: &str) -> Parsed {
    guard(s, || ph::parse_with(db, hint, s)).map(|r| r.map_err(|e| err(&e))).map_err(Boom)
}

pub fn pnum(hint: Hint, s: &str) -> Result<Result<Num, E>, Boom> {
    parse(hint, s).map(|r| r.map(|n| num(&n)))
}

pub fn pnum_with(db: &Database, hint: Hint, s: &str) -> Result<Result<Num, E>, Boom> {
    parse_with(db, hint, s).map(|r| r.map(|n| num(&n)))
}

pub fn format(n: &PhoneNumber, m: Mode) -> Result<String, Boom> {
    guard("format", || n.format().mode(mode(m)).to_string()).map_err(Boom)
}

pub fn format_with(db: &Database, n: &PhoneNumber, m: Mode) -> Result<String, Boom> {
    guard("format", || n.format_with(db).mode(mode(m)).to_string()).map_err(Boom)
}
