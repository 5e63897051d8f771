//! Label types of the workloads. They are derived with the macros of the code under test, so panics
//! located in this file are the library's (see report.rs).
use indexmap::IndexSet;
use lasso::{RodeoReader, ThreadedRodeo};
use measured::{FixedCardinalityLabel, LabelGroup};

use crate::keys::Num;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, FixedCardinalityLabel)]
pub enum Kind3 {
    User,
    Internal,
    NetworkDown,
}
pub const KIND3: [Kind3; 3] = [Kind3::User, Kind3::Internal, Kind3::NetworkDown];
pub const KIND3_S: [&str; 3] = ["user", "internal", "network_down"];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, FixedCardinalityLabel)]
pub enum Code4 {
    Ok = 200,
    BadRequest = 400,
    Teapot = 418,
    ServerError = 500,
}
pub const CODE4: [Code4; 4] = [Code4::Ok, Code4::BadRequest, Code4::Teapot, Code4::ServerError];
pub const CODE4_S: [&str; 4] = ["200", "400", "418", "500"];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, FixedCardinalityLabel)]
#[label(singleton = "op", rename_all = "SHOUTY-KEBAB-CASE")]
pub enum Op5 {
    GetAll,
    Put,
    #[label(rename = "dé\"l")]
    Del,
    Patch,
    HeadOnly,
}
pub const OP5: [Op5; 5] = [Op5::GetAll, Op5::Put, Op5::Del, Op5::Patch, Op5::HeadOnly];
pub const OP5_S: [&str; 5] = ["GET-ALL", "PUT", "dé\"l", "PATCH", "HEAD-ONLY"];

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = SmallSet)]
pub struct Small {
    pub kind: Kind3,
    #[label(rename = "status")]
    pub code: Code4,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = BigSet)]
pub struct Big {
    #[label(fixed_with = IndexSet<Num>)]
    pub row: Num,
    #[label(fixed_with = IndexSet<Num>)]
    pub col: Num,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = RouteSet)]
pub struct Route<'a> {
    #[label(fixed_with = RodeoReader)]
    pub route: &'a str,
    #[label(rename = "route_kind")]
    pub kind: Kind3,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = DynSet)]
pub struct Dyn<'a> {
    pub kind: Kind3,
    #[label(dynamic_with = ThreadedRodeo, default)]
    pub user: &'a str,
    #[label(fixed_with = RodeoReader)]
    pub route: &'a str,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = Dyn2Set)]
pub struct Dyn2<'a> {
    #[label(dynamic_with = ThreadedRodeo, default)]
    pub user: &'a str,
    #[label(dynamic_with = std::sync::Arc<ThreadedRodeo>)]
    pub tenant: &'a str,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = PhfKeySet)]
pub struct PhfKey<'a> {
    #[label(fixed_with = phf::OrderedSet<&'static str>)]
    pub word: &'a str,
    pub code: Code4,
}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = EmptySet)]
pub struct Empty {}

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = WideSet)]
pub struct Wide {
    pub hi: crate::keys::Bits40,
    pub kind: Kind3,
}
