//! Every arm of every exported macro of adextopa-core, used by a client that imports nothing and
//! depends on nothing but adextopa-core.  Only type-checked, never run.
#![allow(dead_code, unused_variables, path_statements, unused_must_use)]

type M = ::adextopa_core::matcher::MatcherRef;
type Ctx = ::adextopa_core::parser_context::ParserContextRef;
type Sc = ::adextopa_core::scope_context::ScopeContextRef;
type Tok = ::adextopa_core::token::TokenRef;
type R = Result<::adextopa_core::matcher::MatcherSuccess, ::adextopa_core::matcher::MatcherFailure>;

mod builtin {
    use super::{Ctx, Sc, Tok, M, R};

    fn token_result(t: Tok) -> R { ::adextopa_core::TokenResult!(t) }
    fn visit(t: Tok) -> Result<(), ::adextopa_core::parse_error::ParseError> {
        ::adextopa_core::Visit!(t, context, "Name" => |token| { Ok(()) }, "Other" => |token| { Ok(()) })
    }
    fn not(m: M) -> M { ::adextopa_core::Not!(m) }
    fn fatal_if_not(m: M) -> M { ::adextopa_core::FatalIfNot!(m, "message") }
    fn fatal_if(m: M) -> M { ::adextopa_core::FatalIf!(m, "message") }
    fn break_named() -> M { ::adextopa_core::Break!("Label") }
    fn break_() -> M { ::adextopa_core::Break!() }
    fn matches_named() -> M { ::adextopa_core::Matches!("Name"; r"\w+") }
    fn matches() -> M { ::adextopa_core::Matches!(r"\w+") }
    fn catch(m: M, r: R) -> M { ::adextopa_core::Catch!(m, |context, failure| Err(failure)) }
    fn null() -> M { ::adextopa_core::Null!() }
    fn panic_() -> M { ::adextopa_core::Panic!("message") }
    fn equals_named() -> M { ::adextopa_core::Equals!("Name"; "pattern") }
    fn equals() -> M { ::adextopa_core::Equals!("pattern") }
    fn equals_fetch() -> M { ::adextopa_core::Equals!(::adextopa_core::Fetch!("Var")) }
    fn discard(m: M) -> M { ::adextopa_core::Discard!(m) }
    fn assert_if(m: M) -> M { ::adextopa_core::AssertIf!(m, "message") }
    fn assert_if_not(m: M) -> M { ::adextopa_core::AssertIfNot!(m, "message") }
    fn register(a: M, b: M) -> M { ::adextopa_core::Register!(a, b) }
    fn proxy_named(m: M) -> M { ::adextopa_core::ProxyChildren!("Name"; m) }
    fn proxy(m: M) -> M { ::adextopa_core::ProxyChildren!(m) }
    fn error() -> M { ::adextopa_core::Error!("message") }
    fn error_result(c: Ctx) -> R { ::adextopa_core::ErrorTokenResult!(c.clone(), "message") }
    fn error_result_range(c: Ctx) -> R {
        ::adextopa_core::ErrorTokenResult!(c.clone(), "message", &::adextopa_core::source_range::SourceRange::new(0, 1))
    }
    fn pin_offset(m: M) -> M { ::adextopa_core::Pin!("Name", "+1"; m) }
    fn pin_named(m: M) -> M { ::adextopa_core::Pin!("Name"; m) }
    fn pin_offset_only() -> M { ::adextopa_core::Pin!("Name", "+1";) }
    fn pin_named_only() -> M { ::adextopa_core::Pin!("Name";) }
    fn pin(m: M) -> M { ::adextopa_core::Pin!(m) }
    fn pin_only() -> M { ::adextopa_core::Pin!() }
    fn store_string() -> M { ::adextopa_core::Store!("Var"; "value") }
    fn store(m: M) -> M { ::adextopa_core::Store!("Var"; m) }
    fn debug_mode(m: M) -> M { ::adextopa_core::Debug!(2; m) }
    fn debug_mode_only() -> M { ::adextopa_core::Debug!(2;) }
    fn debug(m: M) -> M { ::adextopa_core::Debug!(m) }
    fn debug_only() -> M { ::adextopa_core::Debug!() }
    fn map(m: M) -> M { ::adextopa_core::Map!(m, |token, context, scope| ::adextopa_core::TokenResult!(token)) }
    fn map2(m: M) -> M {
        ::adextopa_core::Map!(m, |token, context, scope| ::adextopa_core::TokenResult!(token), |failure, context, scope| Err(failure))
    }
    fn optional(m: M) -> M { ::adextopa_core::Optional!(m) }
    fn set_scope(m: M) -> M { ::adextopa_core::SetScope!(m) }
    fn set_scope_with(s: Sc, m: M) -> M { ::adextopa_core::SetScope!(s, m) }
    fn sequence_named() -> M { ::adextopa_core::Sequence!("Name"; "'", "'", "\\") }
    fn sequence() -> M { ::adextopa_core::Sequence!("'", "'", "\\") }
    fn expand_range(m: M) -> M { ::adextopa_core::ExpandRange!(m) }
    fn program_named(a: M, b: M) -> M { ::adextopa_core::Program!("Name"; a, b) }
    fn program(a: M, b: M) -> M { ::adextopa_core::Program!(a, b) }
    fn program_blank() -> M { ::adextopa_core::Program!() }
    fn switch_named(a: M, b: M) -> M { ::adextopa_core::Switch!("Name"; a, b) }
    fn switch(a: M, b: M) -> M { ::adextopa_core::Switch!(a, b) }
    fn switch_blank() -> M { ::adextopa_core::Switch!() }
    fn loop_range_named(a: M, b: M) -> M { ::adextopa_core::Loop!(1..3; "Name"; a, b) }
    fn loop_named(a: M, b: M) -> M { ::adextopa_core::Loop!("Name"; a, b) }
    fn loop_range(a: M, b: M) -> M { ::adextopa_core::Loop!(1..; a, b) }
    fn loop_(a: M, b: M) -> M { ::adextopa_core::Loop!(a, b) }
    fn loop_blank() -> M { ::adextopa_core::Loop!() }
    fn ref_named() -> M { ::adextopa_core::Ref!("Name".to_string(); "Target") }
    fn ref_() -> M { ::adextopa_core::Ref!("Target") }
}

mod script {
    use super::M;

    fn script() -> M { ::adextopa_core::Script!() }
    fn repeat_specifier() -> M { ::adextopa_core::ScriptRepeatSpecifier!() }
    fn pattern() -> M { ::adextopa_core::ScriptPattern!() }
    fn matcher() -> M { ::adextopa_core::ScriptMatcher!() }
    fn ws0() -> M { ::adextopa_core::ScriptWS0!() }
    fn ws0_optional() -> M { ::adextopa_core::ScriptWS0!(?) }
    fn ws1() -> M { ::adextopa_core::ScriptWS1!() }
    fn wsn0() -> M { ::adextopa_core::ScriptWSN0!() }
    fn wsn0_optional() -> M { ::adextopa_core::ScriptWSN0!(?) }
    fn wsn1() -> M { ::adextopa_core::ScriptWSN1!() }
    fn matcher_name() -> M { ::adextopa_core::ScriptMatcherName!() }
    fn comment() -> M { ::adextopa_core::ScriptComment!() }
    fn sequence_matcher() -> M { ::adextopa_core::ScriptSequenceMatcher!() }
    fn identifier() -> M { ::adextopa_core::ScriptIdentifier!() }
    fn repeat_one_or_more() -> M { ::adextopa_core::ScriptRepeatOneOrMore!() }
    fn attributes() -> M { ::adextopa_core::ScriptAttributes!() }
    fn attribute() -> M { ::adextopa_core::ScriptAttribute!() }
    fn switch_matcher() -> M { ::adextopa_core::ScriptSwitchMatcher!() }
    fn string() -> M { ::adextopa_core::ScriptString!() }
    fn string_named() -> M { ::adextopa_core::ScriptString!("Name") }
    fn equals_matcher() -> M { ::adextopa_core::ScriptEqualsMatcher!() }
    fn repeat_zero_or_more() -> M { ::adextopa_core::ScriptRepeatZeroOrMore!() }
    fn regex_matcher() -> M { ::adextopa_core::ScriptRegexMatcher!() }
    fn import_statement() -> M { ::adextopa_core::ScriptImportStatement!() }
    fn program_matcher() -> M { ::adextopa_core::ScriptProgramMatcher!() }
    fn custom_matcher() -> M { ::adextopa_core::ScriptCustomMatcher!() }
    fn repeat_range() -> M { ::adextopa_core::ScriptRepeatRange!() }
    fn assignment_expression() -> M { ::adextopa_core::ScriptAssignmentExpression!() }
    fn pattern_definition() -> M { ::adextopa_core::ScriptPatternDefinition!() }
    fn adextopa_scope() -> M { ::adextopa_core::ScriptAdextopaScope!() }
    fn pattern_scope() -> M { ::adextopa_core::ScriptPatternScope!() }
}
