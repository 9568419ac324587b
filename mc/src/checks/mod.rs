use crate::run::Ctx;

mod custom;
mod db;
mod plan;
mod text;
mod trip;
mod value;

pub type Check = fn(&Ctx);
pub const ALL: [(&str, Check); 24] = [
    ("C01", text::totality),
    ("C02", trip::intl),
    ("C03", trip::national),
    ("C04", text::spelling),
    ("C05", trip::hint),
    ("C06", trip::idd),
    ("C07", plan::splitting),
    ("C08", plan::carriers),
    ("C09", plan::types),
    ("C10", plan::regions),
    ("C11", trip::grouping),
    ("C12", trip::shape),
    ("C13", text::extensions),
    ("C14", text::letters),
    ("C15", text::uris),
    ("C16", plan::errors),
    ("C17", text::viability),
    ("C18", value::national),
    ("C19", value::storage),
    ("C20", db::contents),
    ("C21", db::lookups),
    ("C22", db::robustness),
    ("C23", custom::custom),
    ("C25", value::ids),
];
