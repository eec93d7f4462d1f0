//! Type-level witnesses.  Nothing here is ever run: each item type-checks
//! exactly when the library keeps the promise written above it.
#![allow(dead_code)]

/// C32: the public data types can be sent to and shared between threads, and own all they contain.
mod shared {
    use cddl_cat::{ast, context, ivt, parser, util, value};
    const fn shared<T: Send + Sync + 'static>() {}
    const _: () = shared::<ast::Cddl>();
    const _: () = shared::<ast::CddlSlice>();
    const _: () = shared::<ast::Rule>();
    const _: () = shared::<ast::RuleVal>();
    const _: () = shared::<ast::Type>();
    const _: () = shared::<ast::Type1>();
    const _: () = shared::<ast::Type2>();
    const _: () = shared::<ast::TypeRange>();
    const _: () = shared::<ast::TypeControl>();
    const _: () = shared::<ast::Group>();
    const _: () = shared::<ast::GrpChoice>();
    const _: () = shared::<ast::GrpEnt>();
    const _: () = shared::<ast::GrpEntVal>();
    const _: () = shared::<ast::Member>();
    const _: () = shared::<ast::MemberKey>();
    const _: () = shared::<ast::MemberKeyVal>();
    const _: () = shared::<ast::NameGeneric>();
    const _: () = shared::<ast::Occur>();
    const _: () = shared::<ast::Value>();
    const _: () = shared::<ivt::RuleDef>();
    const _: () = shared::<ivt::RulesByName>();
    const _: () = shared::<ivt::RulesWithStrings>();
    const _: () = shared::<ivt::Node>();
    const _: () = shared::<ivt::Rule>();
    const _: () = shared::<ivt::Literal>();
    const _: () = shared::<ivt::PreludeType>();
    const _: () = shared::<ivt::Control>();
    const _: () = shared::<ivt::Choice>();
    const _: () = shared::<ivt::KeyValue>();
    const _: () = shared::<ivt::Map>();
    const _: () = shared::<ivt::Array>();
    const _: () = shared::<ivt::Group>();
    const _: () = shared::<ivt::Occur>();
    const _: () = shared::<ivt::Range>();
    const _: () = shared::<context::BasicContext>();
    const _: () = shared::<value::Value>();
    const _: () = shared::<util::ValidateError>();
    const _: () = shared::<util::ValidateResult>();
    const _: () = shared::<util::Mismatch>();
    const _: () = shared::<parser::ParseError>();
    const _: () = shared::<parser::ErrorKind>();
    const _: () = shared::<Result<ast::Cddl, parser::ParseError>>();
    const _: () = shared::<Result<ivt::RulesByName, util::ValidateError>>();
}

/// C33: what every configuration offers.
mod always {
    use cddl_cat::{ast, flatten, ivt, parser, util, ValidateError, ValidateResult};
    const A: fn(&str) -> Result<ast::Cddl, parser::ParseError> = cddl_cat::parse_cddl;
    const B: fn(&str) -> Result<ast::CddlSlice, parser::ParseError> = parser::slice_parse_cddl;
    const C: fn(&str) -> Result<ivt::RulesByName, ValidateError> = flatten::flatten_from_str;
    const D: fn(&str) -> Result<ivt::RulesWithStrings, ValidateError> = flatten::slice_flatten_from_str;
    const E: fn(&ast::Cddl) -> Result<ivt::RulesByName, ValidateError> = flatten::flatten;
    const F: fn(&ast::CddlSlice) -> Result<ivt::RulesWithStrings, ValidateError> = flatten::slice_flatten;
    const G: fn() -> ValidateResult = || Ok::<(), util::ValidateError>(());
    const H: fn(ivt::RulesByName) -> cddl_cat::context::BasicContext = cddl_cat::context::BasicContext::new;
}

/// C33: JSON entry points, whenever JSON is enabled.
#[cfg(feature = "json")]
mod json {
    use cddl_cat::{context::LookupContext, ivt::RuleDef, value::Value, ValidateError, ValidateResult};
    const A: fn(&str, &str, &str) -> ValidateResult = cddl_cat::validate_json_str;
    const B: fn(&RuleDef, &serde_json::Value, &dyn LookupContext) -> ValidateResult = cddl_cat::validate_json;
    const C: fn(&str, &str, &str) -> ValidateResult = cddl_cat::json::validate_json_str;
    fn conv(x: &serde_json::Value) -> Result<Value, ValidateError> {
        <Value as std::convert::TryFrom<&serde_json::Value>>::try_from(x)
    }
}

/// C33: CBOR entry points, whenever CBOR is enabled.
#[cfg(feature = "cbor")]
mod cbor {
    use cddl_cat::{context::LookupContext, ivt::RuleDef, value::Value, ValidateError, ValidateResult};
    const A: fn(&str, &str, &[u8]) -> ValidateResult = cddl_cat::validate_cbor_bytes;
    const B: fn(&RuleDef, &ciborium::Value, &dyn LookupContext) -> ValidateResult = cddl_cat::validate_cbor;
    const C: fn(&str, &str, &[u8]) -> ValidateResult = cddl_cat::cbor::validate_cbor_bytes;
    fn conv(x: &ciborium::Value) -> Result<Value, ValidateError> {
        <Value as std::convert::TryFrom<&ciborium::Value>>::try_from(x)
    }
}
