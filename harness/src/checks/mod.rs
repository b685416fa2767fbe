use crate::ctx::{Ctx, Data, Outcome};

pub mod edit;
pub mod format;
#[cfg(feature = "full")]
pub mod parts;
pub mod syntax;
#[cfg(feature = "serde-types")]
pub mod serde;
pub mod text;
#[cfg(feature = "v1fb")]
pub mod lsp;
#[cfg(feature = "v1")]
pub mod v1;
pub mod work;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Ctx),
    /// re-run one recorded case
    pub replay: fn(&mut Ctx, &str, &Data) -> Outcome,
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(syntax::props());
    v.extend(text::props());
    #[cfg(feature = "full")]
    v.extend(parts::props());
    v.extend(edit::props());
    v.extend(format::props());
    #[cfg(feature = "serde-types")]
    v.extend(serde::props());
    #[cfg(feature = "v1")]
    v.extend(v1::props());
    #[cfg(feature = "v1fb")]
    v.extend(lsp::props());
    v.extend(work::props());
    v
}

pub fn text_replay(ctx: &mut Ctx, d: &Data, f: fn(&mut Ctx, &str) -> Outcome) -> Outcome {
    match d {
        Data::Text(t) => f(ctx, t),
        Data::Seed(_) => panic!("harness: seed replay not supported here"),
    }
}
