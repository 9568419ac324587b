//! The operations whose independence is explored, and what each returns.

use phonenumber::metadata::{Database, DATABASE};
use phonenumber::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Db {
    Default,
    A,
    B,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    /// Everything about one text.
    Full(Db, &'static str, &'static str),
    /// All but printing (which builds the built-in database whatever is asked for).
    Check(Db, &'static str, &'static str),
    /// Only reading it.
    Parse(Db, &'static str, &'static str),
    /// Only printing it (read with the given hint).
    Print(Db, &'static str, &'static str, Mode),
    Viable(&'static str),
    Load(&'static str),
    Lookup(u16, &'static str),
    Store(&'static str),
    /// Reading, printing, hashing or storing the first text calls back into the
    /// caller's code, which does the same with the second one in the middle of it.
    Nested(Cb, &'static str, &'static str),
    /// The caller's code gives up (or panics) when called back the given time.
    Broken(Cb, &'static str, usize, bool),
}

/// Code of the caller that the library calls.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cb {
    /// What is printed into.
    Writer(Mode),
    /// What is read.
    Text,
    /// What is hashed into.
    Hasher,
    /// What is loaded from.
    Source,
}

/// What the caller's code does each time.
struct Hook {
    inner: Option<(Cb, &'static str)>,
    fail: Option<(usize, bool)>,
    count: std::cell::Cell<usize>,
    seen: std::cell::RefCell<String>,
}

impl Hook {
    fn hit(&self) -> Result<(), ()> {
        let k = self.count.get();
        self.count.set(k + 1);
        if let Some((at, boom)) = self.fail {
            if k == at {
                assert!(!boom, "called back");
                return Err(());
            }
        }
        if let (Some((cb, t)), true) = (self.inner, k < 12) {
            let s = call(
                cb,
                t,
                &Hook {
                    inner: None,
                    fail: None,
                    count: std::default::Default::default(),
                    seen: std::default::Default::default(),
                },
            );
            self.seen.borrow_mut().push_str(&s);
        }
        Ok(())
    }
}

struct Out<'a>(&'a Hook, String);

impl std::fmt::Write for Out<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.hit().map_err(|_| std::fmt::Error)?;
        self.1.push_str(s);
        Ok(())
    }
}

struct Text<'a>(&'a Hook, &'static str);

impl AsRef<str> for Text<'_> {
    fn as_ref(&self) -> &str {
        match self.0.hit() {
            Ok(()) => self.1,
            Err(()) => "",
        }
    }
}

struct Sum<'a>(&'a Hook, DefaultHasher);

impl Hasher for Sum<'_> {
    fn finish(&self) -> u64 {
        self.1.finish()
    }
    fn write(&mut self, b: &[u8]) {
        if self.0.hit().is_ok() {
            self.1.write(b)
        }
    }
}

struct Source<'a>(&'a Hook, &'static [u8]);

impl std::io::Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let s = std::io::BufRead::fill_buf(self)?;
        let n = s.len().min(b.len());
        b[..n].copy_from_slice(&s[..n]);
        std::io::BufRead::consume(self, n);
        Ok(n)
    }
}

impl std::io::BufRead for Source<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.0.hit().map_err(|_| std::io::Error::other("gave up"))?;
        Ok(&self.1[..self.1.len().min(400)])
    }
    fn consume(&mut self, n: usize) {
        self.1 = &self.1[n..];
    }
}

fn call(cb: Cb, t: &'static str, h: &Hook) -> String {
    use std::fmt::Write;
    match cb {
        Cb::Writer(m) => {
            let n: PhoneNumber = t.parse().unwrap();
            let mut o = Out(h, String::new());
            let r = write!(o, "{}", n.format().mode(m));
            format!("{r:?} {}", o.1)
        }
        Cb::Text => format!("{:?} {:?}", parse(None, Text(h, t)), is_viable(Text(h, t))),
        Cb::Hasher => {
            let n: PhoneNumber = t.parse().unwrap();
            let mut s = Sum(h, DefaultHasher::new());
            n.hash(&mut s);
            s.finish().to_string()
        }
        Cb::Source => match metadata::loader::load(Source(h, t.as_bytes())) {
            Ok(v) => format!(
                "{:?}",
                v.iter()
                    .map(|m| m.id.as_deref().unwrap_or(""))
                    .collect::<Vec<_>>()
            ),
            Err(e) => format!("{e:?}"),
        },
    }
}

const DOC_A: &str = r#"<phoneNumberMetadata><territories><territory id="US" countryCode="1" internationalPrefix="00" nationalPrefix="0" nationalPrefixForParsing="0(1\d)?" mainCountryForCode="true"><availableFormats><numberFormat pattern="(\d{4})(\d{6})" nationalPrefixFormattingRule="$NP-$FG" carrierCodeFormattingRule="$NP $CC $FG"><format>$1/$2</format></numberFormat></availableFormats><generalDesc><nationalNumberPattern>[2-9]\d{9}</nationalNumberPattern></generalDesc><mobile><possibleLengths national="10"/><nationalNumberPattern>[2-9]\d{9}</nationalNumberPattern></mobile></territory><territory id="CA" countryCode="1" leadingDigits="6" internationalPrefix="00"><generalDesc><nationalNumberPattern>6\d{9}</nationalNumberPattern></generalDesc><tollFree><possibleLengths national="10"/><nationalNumberPattern>6\d{9}</nationalNumberPattern></tollFree></territory><territory id="GB" countryCode="44" internationalPrefix="00"><generalDesc><nationalNumberPattern>\d{8,10}</nationalNumberPattern></generalDesc><pager><possibleLengths national="[8-10]"/><nationalNumberPattern>\d{8,10}</nationalNumberPattern></pager></territory></territories></phoneNumberMetadata>"#;
const DOC_B: &str = r#"<phoneNumberMetadata><territories><territory id="GB" countryCode="1" internationalPrefix="011" nationalPrefix="1"><availableFormats><numberFormat pattern="(\d{5})(\d{5})"><format>$1 $2</format></numberFormat></availableFormats><generalDesc><nationalNumberPattern>\d{10}</nationalNumberPattern></generalDesc><voip><possibleLengths national="10"/><nationalNumberPattern>\d{10}</nationalNumberPattern></voip></territory><territory id="US" countryCode="44" internationalPrefix="00"><generalDesc><nationalNumberPattern>\d{10}</nationalNumberPattern></generalDesc><uan><possibleLengths national="10"/><nationalNumberPattern>\d{10}</nationalNumberPattern></uan></territory></territories></phoneNumberMetadata>"#;

fn db(d: Db) -> &'static Database {
    static DA: OnceLock<Database> = OnceLock::new();
    static DB: OnceLock<Database> = OnceLock::new();
    match d {
        Db::Default => &DATABASE,
        Db::A => DA.get_or_init(|| Database::parse(DOC_A).unwrap()),
        Db::B => DB.get_or_init(|| Database::parse(DOC_B).unwrap()),
    }
}

/// The harness's own databases.
pub fn prepare() {
    db(Db::A);
    db(Db::B);
}

/// The library's own one.
pub fn warm() {
    assert!(DATABASE.by_id("US").is_some());
}

fn hint(h: &str) -> Option<country::Id> {
    (!h.is_empty()).then(|| h.parse().unwrap())
}

const MODES: [Mode; 4] = [
    Mode::E164,
    Mode::International,
    Mode::National,
    Mode::Rfc3966,
];

impl Op {
    pub fn run(&self) -> String {
        match *self {
            Op::Full(d, h, t) => {
                let r = if d == Db::Default {
                    parse(hint(h), t)
                } else {
                    parse_with(db(d), hint(h), t)
                };
                let Ok(n) = r else { return format!("{r:?}") };
                let db = db(d);
                let mut s = format!("{n:?} {} {:?}", n.is_valid_with(db), n.number_type_with(db));
                s += &format!(
                    " {:?} {:?}",
                    n.metadata(db).map(|m| m.id()),
                    n.country().code()
                );
                if d == Db::Default {
                    s += &format!(
                        " {} {:?} {:?}",
                        n.is_valid(),
                        n.number_type(),
                        n.country().id()
                    );
                }
                for m in MODES {
                    s += &format!(" <{}>", n.format_with(db).mode(m));
                }
                s
            }
            Op::Check(d, h, t) => match parse_with(db(d), hint(h), t) {
                Ok(n) => format!(
                    "{n:?} {} {:?} {:?}",
                    n.is_valid_with(db(d)),
                    n.number_type_with(db(d)),
                    n.metadata(db(d)).map(|m| m.id())
                ),
                e => format!("{e:?}"),
            },
            Op::Parse(d, h, t) => format!(
                "{:?}",
                if d == Db::Default {
                    parse(hint(h), t)
                } else {
                    parse_with(db(d), hint(h), t)
                }
            ),
            Op::Print(d, h, t, m) => parse_with(db(d), hint(h), t)
                .unwrap()
                .format_with(db(d))
                .mode(m)
                .to_string(),
            Op::Viable(t) => is_viable(t).to_string(),
            Op::Load(t) => match Database::parse(t) {
                Ok(d) => {
                    let mut v: Vec<String> = d
                        .iter()
                        .map(|m| {
                            format!(
                                "{}{}{:?}",
                                m.id(),
                                m.country_code(),
                                m.descriptors().general()
                            )
                        })
                        .collect();
                    v.sort();
                    format!(
                        "{v:?} {:?}",
                        parse_with(&d, hint("US"), "0212 345 6789")
                            .map(|n| (n.is_valid_with(&d), n.number_type_with(&d)))
                    )
                }
                Err(e) => format!("{e:?}"),
            },
            Op::Lookup(c, i) => format!(
                "{:?} {:?} {:?}",
                DATABASE.by_id(i).map(|m| m.country_code()),
                DATABASE.region(&c),
                DATABASE
                    .by_code(&c)
                    .map(|v| v.into_iter().map(|m| m.id()).collect::<Vec<_>>())
            ),
            Op::Nested(cb, t, u) => {
                let h = Hook {
                    inner: Some((cb, u)),
                    fail: None,
                    count: std::default::Default::default(),
                    seen: std::default::Default::default(),
                };
                let s = call(cb, t, &h);
                format!("{s} / {}", h.seen.borrow())
            }
            Op::Broken(cb, t, at, boom) => {
                let h = Hook {
                    inner: None,
                    fail: Some((at, boom)),
                    count: std::default::Default::default(),
                    seen: std::default::Default::default(),
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(cb, t, &h)));
                r.unwrap_or_else(|_| "the caller's panic".into())
            }
            Op::Store(t) => {
                let n: PhoneNumber = t.parse().unwrap();
                let s = serde_json::to_string(&n).unwrap();
                let m: PhoneNumber = serde_json::from_str(&s).unwrap();
                let mut h = DefaultHasher::new();
                m.hash(&mut h);
                format!("{s} {m} {} {}", m == n, h.finish())
            }
        }
    }
}

use Db::*;
use Op::*;

/// Forced to collide: the same text under different hints and databases, the same
/// digits under different codes, regions sharing a code, all kinds of refusals ...
pub const OPS: &[Op] = &[
    Full(Default, "", "+1 650-253-0000"),
    Full(Default, "US", "(650) 253-0000 ext. 12"),
    Full(Default, "GB", "020 7031 3000"),
    Full(Default, "", "+44 20 7031 3000"),
    Full(A, "US", "0650 253 0000"),
    Full(B, "GB", "650 253 0000"),
    Full(A, "", "+1 650-253-0000"),
    Full(B, "", "+1 650-253-0000"),
    Full(A, "GB", "020 7031 3000"),
    Full(B, "US", "020 7031 3000"),
    Full(Default, "BR", "0 15 21 3344 5566"),
    Full(Default, "", "+39 02 3661 8300"),
    Full(Default, "", "+39 2 3661 8300"),
    Full(Default, "RU", "8 800 555 35 35"),
    Full(Default, "KZ", "8 701 511 22 33"),
    Full(Default, "", "+7 701 511 22 33"),
    Full(Default, "CA", "604-555-0123"),
    Full(Default, "", "+1 604 555 0123"),
    Full(Default, "", "+1 242 345 6789"),
    Full(Default, "JE", "07797 712345"),
    Full(Default, "", "+44 1481 256789"),
    Full(Default, "US", "1-800-FLOWERS"),
    Full(Default, "US", "800-flo"),
    Full(Default, "", "tel:+1-650-253-0000;ext=77"),
    Full(Default, "", "tel:253-0000;phone-context=+1-650"),
    Full(Default, "US", "011 44 20 7031 3000"),
    Full(Default, "", "00 44 20 7031 3000"),
    Full(Default, "AU", "0011 1 650 253 0000"),
    Full(Default, "", "+800 1234 5678"),
    Full(Default, "", "+881 612345678"),
    Full(Default, "", "+４４ ２０ ７０３１ ３０００"),
    Full(Default, "", "٠٠٤٤٢٠٧٠٣١٣٠٠٠"),
    Full(Default, "AR", "011 15-2345-6789"),
    Full(Default, "MX", "01 55 1234 5678"),
    Full(Default, "IN", "9123456789"),
    Full(Default, "DE", "030/123456"),
    Full(Default, "FR", "01 42 68 53 00"),
    Full(Default, "FR", "650 253 0000"),
    Full(Default, "", "+650 253 0000"),
    Full(Default, "", "+0 650"),
    Full(Default, "", "hello"),
    Full(Default, "", "650 253 0000"),
    Full(Default, "US", "1"),
    Full(Default, "US", "01"),
    Full(Default, "US", "123456789012345678901234"),
    Full(Default, "", "+290 51234"),
    Parse(Default, "US", "650 253 0000"),
    Parse(Default, "GB", "650 253 0000"),
    Parse(A, "US", "650 253 0000"),
    Parse(B, "GB", "650 253 0000"),
    Check(A, "US", "015 650 253 0000"),
    Check(A, "", "+1 650 253 0000 ext. 8"),
    Check(B, "", "+1 650 253 0000"),
    Check(B, "GB", "1 650 253 0000"),
    Check(A, "GB", "00 1 650 253 0000"),
    Check(A, "US", "1-800-flowers"),
    Check(B, "", "nothing"),
    Parse(Default, "", "+1 650 253 0000 x123"),
    Parse(Default, "", "+1 650 253 0000 x4567"),
    Print(Default, "", "+1 650 253 0000", Mode::National),
    Print(Default, "", "+1 650 253 0000", Mode::International),
    Print(Default, "", "+44 650 253 0000", Mode::National),
    Print(A, "US", "0 15 650 253 0000", Mode::National),
    Print(Default, "BR", "0 21 11 3344 5566", Mode::National),
    Print(Default, "BR", "11 3344 5566", Mode::National),
    Viable("0800-4-pizza"),
    Viable("08-PIZZA"),
    Viable("1"),
    Load(DOC_A),
    Load(DOC_B),
    Load("<phoneNumberMetadata><territories><territory id=\"US\""),
    Lookup(1, "US"),
    Lookup(44, "GB"),
    Lookup(7, "KZ"),
    Lookup(999, "ZZ"),
    Store("+39 0236618300"),
    Store("+1 650 253 0000 ext 5"),
    Nested(
        Cb::Writer(Mode::National),
        "+1 650 253 0000 ext 5",
        "+44 20 7031 3000",
    ),
    Nested(
        Cb::Writer(Mode::International),
        "+1 650 253 0000",
        "+1 604 555 0123",
    ),
    Nested(
        Cb::Writer(Mode::Rfc3966),
        "+39 0236618300 ext 7",
        "+1 650 253 0000",
    ),
    Nested(
        Cb::Writer(Mode::E164),
        "+44 20 7031 3000",
        "+1 650 253 0000",
    ),
    Nested(Cb::Text, "+1 650 253 0000", "+44 20 7031 3000"),
    Nested(Cb::Hasher, "+1 650 253 0000 ext 5", "+44 20 7031 3000"),
    Nested(Cb::Source, DOC_A, DOC_B),
    Broken(
        Cb::Writer(Mode::National),
        "+1 650 253 0000 ext 5",
        0,
        false,
    ),
    Broken(Cb::Writer(Mode::National), "+1 650 253 0000 ext 5", 1, true),
    Broken(
        Cb::Writer(Mode::International),
        "+1 650 253 0000 ext 5",
        1,
        false,
    ),
    Broken(
        Cb::Writer(Mode::International),
        "+1 650 253 0000 ext 5",
        0,
        true,
    ),
    Broken(Cb::Writer(Mode::Rfc3966), "+44 20 7031 3000", 1, true),
    Broken(Cb::Writer(Mode::E164), "+44 20 7031 3000", 1, true),
    Broken(Cb::Text, "+1 650 253 0000", 0, true),
    Broken(Cb::Hasher, "+1 650 253 0000", 1, true),
    Broken(Cb::Source, DOC_A, 2, false),
    Broken(Cb::Source, DOC_A, 2, true),
];

impl Op {
    /// Does not build the built-in database.
    pub fn light(&self) -> bool {
        match *self {
            Check(d, ..) | Parse(d, ..) => d != Default,
            Viable(_) | Load(_) | Nested(Cb::Source, ..) | Broken(Cb::Source, ..) => true,
            _ => false,
        }
    }

    pub fn label(&self) -> String {
        let s = format!("{self:?}");
        s.chars().take(90).collect()
    }
}

/// Many calls that differ in as little as possible: who it is read for, the digits,
/// the extension, the database.
pub struct Crowd {
    pub axes: [usize; 4],
    items: Vec<Op>,
}

impl Crowd {
    pub fn new(quick: bool) -> Self {
        let codes: &[&str] = if quick {
            &[
                "1", "7", "20", "31", "33", "34", "39", "41", "43", "44", "47", "49", "52", "54",
                "55", "61", "81", "86", "91", "98", "212", "225", "262", "290", "353", "358",
                "377", "378", "379", "423", "590", "599", "800", "881", "979", "2", "999",
            ]
        } else {
            &[
                "1", "7", "20", "27", "30", "31", "32", "33", "34", "36", "39", "40", "41", "43",
                "44", "45", "46", "47", "48", "49", "51", "52", "53", "54", "55", "56", "57", "58",
                "60", "61", "62", "63", "64", "65", "66", "81", "82", "84", "86", "90", "91", "92",
                "93", "94", "95", "98", "211", "212", "213", "216", "218", "220", "225", "262",
                "290", "299", "352", "353", "355", "358", "370", "377", "378", "379", "380", "420",
                "423", "501", "508", "590", "599", "670", "680", "692", "800", "808", "850", "870",
                "878", "881", "882", "883", "886", "888", "960", "979", "998", "2", "0", "999",
            ]
        };
        let hints: &[&str] = if quick {
            &[
                "US", "CA", "BS", "GB", "JE", "IT", "VA", "RU", "KZ", "BR", "AR", "MX", "DE", "FR",
                "AU", "CX", "NO", "SJ", "FI", "IN",
            ]
        } else {
            &[
                "US", "CA", "BS", "JM", "PR", "GB", "JE", "GG", "IM", "IT", "VA", "SM", "RU", "KZ",
                "BR", "AR", "MX", "DE", "FR", "RE", "YT", "GP", "AU", "CX", "CC", "NO", "SJ", "FI",
                "AX", "IN", "CN", "JP", "KR", "IL", "NZ", "CI", "GA", "LI", "CH", "AT",
            ]
        };
        let digits: &[&str] = &[
            "6502530000",
            "650 253 0000",
            "0650 253 0000",
            "00650 253 0000",
            "0236618300",
            "236618300",
            "2 3661 8300",
            "2070313000",
            "02070313000",
            "7975777666",
            "612345678",
            "12345678",
            "1234567",
            "3456",
            "012",
            "16502530000",
            "80012345",
            "8005553535",
            "9123456789",
            "91123456789",
            "1123456789",
            "15 3344 5566 77",
            "0441481256789",
            "(0) 30 123456",
        ];
        let digits = if quick { &digits[..16] } else { digits };
        let exts = ["", " ext. 5", ";ext=6", " x55"];
        let dbs = [Default, A, B];
        let mut items = vec![];
        let text = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
        for w in 0..codes.len() + hints.len() {
            for d in digits {
                for e in exts {
                    for db in dbs {
                        let (h, t) = if w < codes.len() {
                            ("", format!("+{} {d}{e}", codes[w]))
                        } else {
                            (hints[w - codes.len()], format!("{d}{e}"))
                        };
                        items.push(Full(db, h, text(t)));
                    }
                }
            }
        }
        Crowd {
            axes: [
                codes.len() + hints.len(),
                digits.len(),
                exts.len(),
                dbs.len(),
            ],
            items,
        }
    }

    pub fn len(&self) -> usize {
        self.items.len()
    }

    pub fn item(&self, i: usize) -> &Op {
        &self.items[i]
    }

    /// All of them, `axis` fastest, and along it each followed by the one `stride` on.
    pub fn order(&self, axis: usize, stride: usize) -> Vec<usize> {
        let n = self.axes[axis];
        let step: usize = self.axes[axis + 1..].iter().product();
        let mut out = vec![];
        for i in (0..self.len()).filter(|i| i / step % n == 0) {
            let mut seen = vec![false; n];
            for start in 0..n {
                let mut k = start;
                while !seen[k] {
                    seen[k] = true;
                    out.push(i + k * step);
                    k = (k + stride) % n;
                }
                if k != start || n == 1 {
                    continue;
                }
                out.push(i + k * step);
            }
        }
        out
    }
}
