//! Witness programs: each function uses one piece of the public API of adextopa-core the way
//! a client would.  They are compiled and *analysed* (their MIR is the entry point of the
//! abstract interpreter); they are never executed.
#![allow(dead_code, unused_imports, unused_variables, non_snake_case)]

use adextopa_core::matcher::{Matcher, MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::matchers::fetch::{Fetchable, FetchableType};
use adextopa_core::matchers::program::{MatchAction, ProgramPattern};
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::{Parser, ParserRef};
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
use adextopa_core::scope::{Scope, ScopeRef, VariableType};
use adextopa_core::scope_context::{ScopeContext, ScopeContextRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, Token, TokenRef};
use adextopa_core::*;
use std::ops::{Range, RangeBounds};

pub mod reference;

type R = Result<MatcherSuccess, MatcherFailure>;

/// What every caller of a matcher does.
fn run(m: MatcherRef, ctx: ParserContextRef, scope: ScopeContextRef) -> R {
    let r = m.borrow().exec(m.clone(), ctx.clone(), scope.clone());
    r
}

pub mod exec {
    use super::*;

    pub fn optional(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Optional!(c), ctx, sc)
    }
    pub fn not(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Not!(c), ctx, sc)
    }
    pub fn discard(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Discard!(c), ctx, sc)
    }
    pub fn debug(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Debug!(c), ctx, sc)
    }
    pub fn debug_mode(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Debug!(2; c), ctx, sc)
    }
    pub fn debug_none(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Debug!(), ctx, sc)
    }
    pub fn catch<F>(c: MatcherRef, f: F, ctx: ParserContextRef, sc: ScopeContextRef) -> R
    where
        F: Fn(ParserContextRef, MatcherFailure) -> R + 'static,
    {
        run(Catch!(c, f), ctx, sc)
    }
    pub fn map<F>(c: MatcherRef, f: F, ctx: ParserContextRef, sc: ScopeContextRef) -> R
    where
        F: Fn(TokenRef, ParserContextRef, ScopeContextRef) -> R + 'static,
    {
        run(Map!(c, f), ctx, sc)
    }
    pub fn map2<F, G>(c: MatcherRef, f: F, g: G, ctx: ParserContextRef, sc: ScopeContextRef) -> R
    where
        F: Fn(TokenRef, ParserContextRef, ScopeContextRef) -> R + 'static,
        G: Fn(MatcherFailure, ParserContextRef, ScopeContextRef) -> R + 'static,
    {
        run(Map!(c, f, g), ctx, sc)
    }
    pub fn proxy(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProxyChildren!(c), ctx, sc)
    }
    pub fn proxy_named(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProxyChildren!("Named"; c), ctx, sc)
    }
    pub fn expand_range(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ExpandRange!(c), ctx, sc)
    }
    pub fn set_scope(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(SetScope!(c), ctx, sc)
    }
    pub fn set_scope_with(c: MatcherRef, sc2: ScopeContextRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(SetScope!(sc2, c), ctx, sc)
    }
    pub fn pin(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Pin!(c), ctx, sc)
    }
    pub fn pin_named(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Pin!("Named"; c), ctx, sc)
    }
    pub fn pin_offset(c: MatcherRef, off: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Pin!("Named", off; c), ctx, sc)
    }
    pub fn pin_none(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Pin!(), ctx, sc)
    }
    pub fn pin_none_named(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Pin!("Named";), ctx, sc)
    }
    pub fn store_matcher(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Store!("Var"; c), ctx, sc)
    }
    pub fn store_string(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Store!("Var"; "Value"), ctx, sc)
    }
    pub fn fetch(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        let f: Box<dyn Matcher> = Box::new(Fetch!("Var"));
        let m: MatcherRef = std::rc::Rc::new(std::cell::RefCell::new(f));
        run(m, ctx, sc)
    }
    pub fn register(a: MatcherRef, b: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Register!(a, b), ctx, sc)
    }
    pub fn reference(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Ref!("Target"), ctx, sc)
    }
    pub fn reference_named(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Ref!("Named".to_string(); "Target"), ctx, sc)
    }
    pub fn reference_string(t: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Ref!(t), ctx, sc)
    }
    pub fn reference_matcher(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Ref!(c), ctx, sc)
    }
    pub fn program(v: Vec<MatcherRef>, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_program(v, MatchAction::Continue), ctx, sc)
    }
    pub fn program_named(v: Vec<MatcherRef>, name: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_program_with_name(v, name, MatchAction::Continue), ctx, sc)
    }
    pub fn switch(v: Vec<MatcherRef>, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_program(v, MatchAction::Stop), ctx, sc)
    }
    pub fn looping(v: Vec<MatcherRef>, r: Range<usize>, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_loop(v, r), ctx, sc)
    }
    pub fn looping_one(c: MatcherRef, r: Range<usize>, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_loop(vec![c], r), ctx, sc)
    }
    pub fn looping_from(c: MatcherRef, lo: usize, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_loop(vec![c], lo..), ctx, sc)
    }
    pub fn looping_inclusive(c: MatcherRef, lo: usize, hi: usize, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_loop(vec![c], lo..=hi), ctx, sc)
    }
    pub fn looping_upto(c: MatcherRef, hi: usize, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_loop(vec![c], ..hi), ctx, sc)
    }
    pub fn looping_beyond(c: MatcherRef, above: usize, hi: usize, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_loop(vec![c], (std::ops::Bound::Excluded(above), std::ops::Bound::Included(hi))), ctx, sc)
    }
    pub fn looping_macro(c: MatcherRef, r: Range<usize>, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Loop!(r; c), ctx, sc)
    }
    pub fn looping_macro_named(c: MatcherRef, r: Range<usize>, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Loop!(r; "Named"; c), ctx, sc)
    }
    pub fn looping_one_named(c: MatcherRef, name: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_loop_with_name_and_range(vec![c], name, 0..), ctx, sc)
    }
    pub fn looping_two(a: MatcherRef, b: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_loop(vec![a, b], 0..), ctx, sc)
    }
    pub fn program_one(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_program(vec![c], MatchAction::Continue), ctx, sc)
    }
    pub fn looping_unbounded(v: Vec<MatcherRef>, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_loop(v, 0..), ctx, sc)
    }
    pub fn looping_named(v: Vec<MatcherRef>, name: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(ProgramPattern::new_loop_with_name_and_range(v, name, 0..), ctx, sc)
    }
    // the macro forms, with a fixed number of children
    pub fn program_macro(a: MatcherRef, b: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Program!(a, b), ctx, sc)
    }
    pub fn program_macro_named(a: MatcherRef, b: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Program!("Named"; a, b), ctx, sc)
    }
    pub fn switch_macro(a: MatcherRef, b: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Switch!(a, b), ctx, sc)
    }
    pub fn break_(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Break!(), ctx, sc)
    }
    pub fn break_named(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Break!("Label"), ctx, sc)
    }
    pub fn null(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Null!(), ctx, sc)
    }
    pub fn panic(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Panic!("message"), ctx, sc)
    }
    pub fn error(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Error!("message"), ctx, sc)
    }
    pub fn equals(pat: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Equals!(pat), ctx, sc)
    }
    pub fn equals_named(pat: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Equals!("Named"; pat), ctx, sc)
    }
    pub fn equals_fetch(ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Equals!(Fetch!("Var")), ctx, sc)
    }
    pub fn matches(re: regex::Regex, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(adextopa_core::matchers::matches::MatchesPattern::new(re), ctx, sc)
    }
    pub fn matches_named(re: regex::Regex, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(adextopa_core::matchers::matches::MatchesPattern::new_with_name("Named", re), ctx, sc)
    }
    pub fn sequence(a: String, b: String, e: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Sequence!(a, b, e), ctx, sc)
    }
    pub fn sequence_named(a: String, b: String, e: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Sequence!("Named"; a, b, e), ctx, sc)
    }
    pub fn assert_if(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(AssertIf!(c, "message"), ctx, sc)
    }
    pub fn assert_if_not(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(AssertIfNot!(c, "message"), ctx, sc)
    }
    pub fn fatal_if(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(FatalIf!(c, "message"), ctx, sc)
    }
    pub fn fatal_if_not(c: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(FatalIfNot!(c, "message"), ctx, sc)
    }

    // named, and named again
    macro_rules! again {
        ($($n:ident($($v:ident: $t:ty),*) => $e:expr;)*) => { $(
            pub fn $n($($v: $t,)* n: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
                let m = $e;
                m.borrow_mut().set_name(&n);
                run(m, ctx, sc)
            }
        )* };
    }
    again! {
        equals_renamed(pat: String) => Equals!("Named"; pat);
        matches_renamed(re: regex::Regex) => adextopa_core::matchers::matches::MatchesPattern::new_with_name("Named", re);
        sequence_renamed(a: String, b: String, e: String) => Sequence!("Named"; a, b, e);
        pin_none_renamed() => Pin!("Named";);
        proxy_renamed(c: MatcherRef) => ProxyChildren!("Named"; c);
        reference_renamed() => Ref!("Named".to_string(); "Target");
        program_renamed(v: Vec<MatcherRef>) => ProgramPattern::new_program_with_name(v, "Named".to_string(), MatchAction::Continue);
        store_renamed(c: MatcherRef) => Store!("Var"; c);
    }
}

pub mod api {
    use super::*;

    pub fn tokenize(c: MatcherRef, ctx: ParserContextRef) -> Result<TokenRef, MatcherFailure> {
        ParserContext::tokenize(ctx, c)
    }
    pub fn error_token(msg: &str, ctx: ParserContextRef) -> R {
        ErrorTokenResult!(ctx, msg)
    }
    pub fn error_token_range(msg: &str, range: SourceRange, ctx: ParserContextRef) -> R {
        ErrorTokenResult!(ctx, msg, &range)
    }
    pub fn error_matcher(msg: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Error!(&msg), ctx, sc)
    }
    pub fn panic_matcher(msg: String, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
        run(Panic!(&msg), ctx, sc)
    }
    pub fn new_context(p: ParserRef) -> ParserContextRef {
        ParserContext::new(&p, "Name")
    }
}

/// how grammars are put together, inspected and changed
pub mod structure {
    use super::*;

    type Kids = Option<Vec<MatcherRef>>;

    fn kids(m: &MatcherRef) -> Kids {
        let k = m.borrow().get_children();
        k
    }
    fn swap(m: &MatcherRef, i: usize, d: MatcherRef) {
        m.borrow_mut().set_child(i, d);
    }

    macro_rules! wrappers {
        ($($name:ident: $c:ident => $e:expr;)*) => { $(
            pub mod $name {
                use super::*;
                pub fn children($c: MatcherRef) -> Kids {
                    kids(&$e)
                }
                pub fn replaced($c: MatcherRef, d: MatcherRef) -> Kids {
                    let m = $e;
                    swap(&m, 0, d);
                    kids(&m)
                }
                pub fn replaced_runs($c: MatcherRef, d: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> R {
                    let m = $e;
                    swap(&m, 0, d);
                    run(m, ctx, sc)
                }
                pub fn outside($c: MatcherRef, d: MatcherRef) -> Kids {
                    let m = $e;
                    swap(&m, 1, d);
                    kids(&m)
                }
                pub fn renamed($c: MatcherRef, n: String) {
                    let m = $e;
                    m.borrow_mut().set_name(&n);
                }
            }
        )* };
    }
    wrappers! {
        optional: c => Optional!(c);
        not: c => Not!(c);
        discard: c => Discard!(c);
        debug: c => Debug!(c);
        expand_range: c => ExpandRange!(c);
        set_scope: c => SetScope!(c);
        catch: c => Catch!(c, |_, failure| Err(failure));
        map: c => Map!(c, |token, _, _| Ok(MatcherSuccess::Token(token)));
        proxy: c => ProxyChildren!(c);
    }
    pub fn pin_children(c: MatcherRef) -> Kids {
        kids(&Pin!(c))
    }
    pub fn pin_named_children(c: MatcherRef) -> Kids {
        kids(&Pin!("Named"; c))
    }
    pub fn store_children(c: MatcherRef) -> Kids {
        kids(&Store!("Var"; c))
    }
    pub fn register_children(a: MatcherRef, b: MatcherRef) -> Kids {
        kids(&Register!(a, b))
    }
    pub fn proxy_named_children(c: MatcherRef) -> Kids {
        kids(&ProxyChildren!("Named"; c))
    }

    macro_rules! lists {
        ($($name:ident: $($v:ident),* => $e:expr;)*) => { $(
            pub mod $name {
                use super::*;
                pub fn children($($v: MatcherRef),*) -> Kids {
                    kids(&$e)
                }
            }
        )* };
    }
    lists! {
        program2: a, b => Program!(a, b);
        program3: a, b, c => Program!(a, b, c);
        program_named2: a, b => Program!("Named"; a, b);
        switch2: a, b => Switch!(a, b);
        switch3: a, b, c => Switch!(a, b, c);
        switch_named2: a, b => Switch!("Named"; a, b);
        loop2: a, b => Loop!(a, b);
        loop_named2: a, b => Loop!("Named"; a, b);
        loop_range2: a, b => Loop!(1..3; a, b);
        loop_range_named2: a, b => Loop!(1..3; "Named"; a, b);
    }
    macro_rules! vectors {
        ($($name:ident: $v:ident => $e:expr;)*) => { $(
            pub mod $name {
                use super::*;
                pub fn children($v: Vec<MatcherRef>) -> Kids {
                    kids(&$e)
                }
                pub fn added($v: Vec<MatcherRef>, d: MatcherRef) -> Kids {
                    let m = $e;
                    m.borrow_mut().add_pattern(d);
                    kids(&m)
                }
                pub fn replaced($v: Vec<MatcherRef>, i: usize, d: MatcherRef) -> Kids {
                    let m = $e;
                    swap(&m, i, d);
                    kids(&m)
                }
            }
        )* };
    }
    vectors! {
        program_new: v => ProgramPattern::new_program(v, MatchAction::Continue);
        switch_new: v => ProgramPattern::new_program(v, MatchAction::Stop);
        loop_new: v => ProgramPattern::new_loop(v, 0..);
        program_new_named: v => ProgramPattern::new_program_with_name(v, "Named".to_string(), MatchAction::Continue);
        loop_new_named: v => ProgramPattern::new_loop_with_name_and_range(v, "Named".to_string(), 0..);
    }
}

/// what matchers are called
pub mod names {
    use super::*;

    fn name(m: MatcherRef) -> String {
        let n = m.borrow().get_name().to_string();
        n
    }
    macro_rules! named {
        ($($f:ident ($($v:ident: $t:ty),*) => $e:expr;)*) => { $(
            pub mod $f {
                use super::*;
                pub fn given($($v: $t),*) -> String {
                    name($e)
                }
                pub fn renamed(n: String, $($v: $t),*) -> String {
                    let m = $e;
                    m.borrow_mut().set_name(&n);
                    name(m)
                }
            }
        )* };
    }
    named! {
        equals_named(p: String) => Equals!("Named"; p);
        matches_named(re: regex::Regex) => adextopa_core::matchers::matches::MatchesPattern::new_with_name("Named", re);
        sequence_named(a: String, b: String, e: String) => Sequence!("Named"; a, b, e);
        program_named(a: MatcherRef, b: MatcherRef) => Program!("Named"; a, b);
        switch_named(a: MatcherRef, b: MatcherRef) => Switch!("Named"; a, b);
        loop_named(a: MatcherRef, b: MatcherRef) => Loop!("Named"; a, b);
        loop_range_named(a: MatcherRef, b: MatcherRef) => Loop!(1..3; "Named"; a, b);
        program_new_named(v: Vec<MatcherRef>) => ProgramPattern::new_program_with_name(v, "Named".to_string(), MatchAction::Continue);
        loop_new_named(v: Vec<MatcherRef>) => ProgramPattern::new_loop_with_name_and_range(v, "Named".to_string(), 0..);
        pin_named(c: MatcherRef) => Pin!("Named"; c);
        pin_empty_named() => Pin!("Named";);
        proxy_named(c: MatcherRef) => ProxyChildren!("Named"; c);
        reference_named() => Ref!("Named".to_string(); "Target");
    }
}

/// everything that can be read from a token, before and after one thing was changed
pub mod tokens {
    use super::*;
    use adextopa_core::matchers::pin::PinToken;
    use adextopa_core::token::TokenType;

    type View = (
        SourceRange,
        SourceRange,
        String,
        Option<TokenRef>,
        Vec<TokenRef>,
        String,
        String,
        String,
        Option<String>,
        TokenType,
        ParserRef,
    );

    fn view<T: Token>(t: &mut T) -> View {
        (
            t.get_captured_range().clone(),
            t.get_matched_range().clone(),
            t.get_name().clone(),
            t.get_parent(),
            t.get_children().clone(),
            t.get_value().clone(),
            t.get_captured_value().clone(),
            t.get_matched_value().clone(),
            t.get_attribute("other").cloned(),
            t.get_flags(),
            t.get_parser(),
        )
    }

    macro_rules! setters {
        ($($kind:ident: $T:ty { $($f:ident ($($v:ident: $t:ty),*) |$x:ident| $e:expr;)* })*) => { $(
            pub mod $kind {
                use super::*;
                $(
                    pub fn $f($x: &mut $T, $($v: $t),*) -> (View, View) {
                        let before = view($x);
                        $e;
                        (before, view($x))
                    }
                )*
                pub fn attribute(t: &mut $T, k: &str, v: &str) -> (Option<String>, Option<String>, Option<String>) {
                    let before = t.get_attribute(k).cloned();
                    let old = t.set_attribute(k, v);
                    (before, old, t.get_attribute(k).cloned())
                }
                pub fn attribute_answers(t: &mut $T, k: &str, v: &str) -> (bool, bool) {
                    t.set_attribute(k, v);
                    (t.has_attribute(k), t.attribute_equals(k, v))
                }
                pub fn attribute_absent(t: &mut $T, k: &str) -> (Option<String>, bool) {
                    (t.get_attribute(k).cloned(), t.has_attribute(k))
                }
                pub fn attribute_unequal(t: &mut $T, k: &str, v: &str, w: &str) -> bool {
                    t.set_attribute(k, v);
                    t.attribute_equals(k, w)
                }
                pub fn all_attributes(t: &mut $T) -> Option<String> {
                    t.set_attribute("key", "value");
                    t.get_attributes().get("key").cloned()
                }
                pub fn flags_enabled(t: &mut $T, f: TokenType) -> (bool, TokenType) {
                    (t.flags_enabled(f), t.get_flags())
                }
                pub fn flags_after_enable(t: &mut $T) -> (bool, bool) {
                    t.enable_flags(4);
                    (t.flags_enabled(4), t.flags_enabled(2))
                }
                pub fn find_child(t: &mut $T, name: &str) -> (Option<TokenRef>, Vec<TokenRef>) {
                    (t.find_child(name), t.get_children().clone())
                }
                pub fn has_child(t: &mut $T, name: &str) -> (bool, Vec<TokenRef>) {
                    (t.has_child(name), t.get_children().clone())
                }
                pub fn new(p: ParserRef, name: String, r: SourceRange) -> TokenRef {
                    <$T>::new(&p, name, r)
                }
                pub fn new_with_matched_range(p: ParserRef, name: String, r: SourceRange, m: SourceRange) -> TokenRef {
                    <$T>::new_with_matched_range(&p, name, r, m)
                }
            }
        )* };
    }
    macro_rules! kinds {
        ($($kind:ident: $T:ty;)*) => { setters! { $($kind: $T {
            set_captured_range(x: SourceRange) |t| t.set_captured_range(x);
            set_matched_range(x: SourceRange) |t| t.set_matched_range(x);
            set_captured_range_mut(x: SourceRange) |t| *t.get_captured_range_mut() = x;
            set_matched_range_mut(x: SourceRange) |t| *t.get_matched_range_mut() = x;
            set_name(x: &str) |t| t.set_name(x);
            set_parent(x: Option<TokenRef>) |t| t.set_parent(x);
            set_children(x: Vec<TokenRef>) |t| t.set_children(x);
            add_child(x: TokenRef) |t| t.add_child(x);
            push_child(x: TokenRef) |t| t.get_children_mut().push(x);
            set_value(x: &str) |t| t.set_value(x);
            set_captured_value(x: &str) |t| t.set_captured_value(x);
            set_matched_value(x: &str) |t| t.set_matched_value(x);
            set_attribute(x: &str) |t| { t.set_attribute("other", x); };
            set_another_attribute(x: &str) |t| { t.set_attribute("another", x); };
            set_value_attribute(x: &str) |t| { t.set_attribute("__value", x); };
            set_flags(x: TokenType) |t| t.set_flags(x);
            enable_flags(x: TokenType) |t| t.enable_flags(x);
            disable_flags(x: TokenType) |t| t.disable_flags(x);
        })* } };
    }
    kinds! {
        standard: StandardToken;
        pin: PinToken;
    }
    pub fn range_text(r: SourceRange, p: ParserRef) -> String {
        r.to_string(&p)
    }
    pub fn with_len(r: SourceRange, n: usize) -> SourceRange {
        r.clone_with_len(n)
    }
}

/// walks over token trees
pub mod visit {
    use super::*;

    type V = Result<(), ParseError>;

    pub fn named_and_default<'a, F, G>(t: TokenRef, name: &'a str, f: F, g: G) -> V
    where
        F: FnMut(TokenRef) -> V + 'a,
        G: FnMut(TokenRef) -> V + 'a,
    {
        let mut v = token_visitor::TokenVisitor::new();
        v.add_visitor(name, Box::new(f));
        v.add_visitor("*", Box::new(g));
        v.visit(t)
    }
    pub fn default_first<'a, F, G>(t: TokenRef, name: &'a str, f: F, g: G) -> V
    where
        F: FnMut(TokenRef) -> V + 'a,
        G: FnMut(TokenRef) -> V + 'a,
    {
        let mut v = token_visitor::TokenVisitor::new();
        v.add_visitor("*", Box::new(g));
        v.add_visitor(name, Box::new(f));
        v.visit(t)
    }
    pub fn named<'a, F>(t: TokenRef, name: &'a str, f: F) -> V
    where
        F: FnMut(TokenRef) -> V + 'a,
    {
        let mut v = token_visitor::TokenVisitor::new();
        v.add_visitor(name, Box::new(f));
        v.visit(t)
    }
    pub fn default<'a, G>(t: TokenRef, g: G) -> V
    where
        G: FnMut(TokenRef) -> V + 'a,
    {
        let mut v = token_visitor::TokenVisitor::new();
        v.add_visitor("*", Box::new(g));
        v.visit(t)
    }
    pub fn two<'a, F, G>(t: TokenRef, name: &'a str, other: &'a str, f: F, g: G) -> V
    where
        F: FnMut(TokenRef) -> V + 'a,
        G: FnMut(TokenRef) -> V + 'a,
    {
        let mut v = token_visitor::TokenVisitor::new();
        v.add_visitor(name, Box::new(f));
        v.add_visitor(other, Box::new(g));
        v.visit(t)
    }
    pub fn none(t: TokenRef) -> V {
        let mut v = token_visitor::TokenVisitor::new();
        v.visit(t)
    }
    pub fn by_macro<F, G>(t: TokenRef, f: F, g: G) -> V
    where
        F: FnMut(TokenRef) -> V,
        G: FnMut(TokenRef) -> V,
    {
        Visit!(t, (), "Name" => f, "*" => g)
    }
}

/// variables: levels of scopes, and what Fetch reads
pub mod scopes {
    use super::*;
    use adextopa_core::matchers::fetch::FetchPattern;

    type Var = Option<VariableType>;

    /// three levels, outermost first
    fn three(a: &ScopeRef, b: &ScopeRef, c: &ScopeRef) -> ScopeContextRef {
        let sc = ScopeContext::new();
        sc.borrow_mut().push(a.clone());
        sc.borrow_mut().push(b.clone());
        sc.borrow_mut().push(c.clone());
        sc
    }
    fn at(s: &ScopeRef, name: &str) -> Var {
        let v = s.borrow().get(name).cloned();
        v
    }
    fn get(sc: &ScopeContextRef, name: &str) -> Var {
        let v = sc.borrow().get(name);
        v
    }

    pub fn lookup(a: ScopeRef, b: ScopeRef, c: ScopeRef, name: &str) -> (Var, Var, Var, Var) {
        let sc = three(&a, &b, &c);
        (get(&sc, name), at(&c, name), at(&b, name), at(&a, name))
    }
    pub fn lookup_nothing(name: &str) -> Var {
        get(&ScopeContext::new(), name)
    }
    pub fn bind(a: ScopeRef, b: ScopeRef, c: ScopeRef, name: &str, v: VariableType) -> (Var, Var, Var, Var, Var, Var, Var) {
        let sc = three(&a, &b, &c);
        let before = (at(&a, name), at(&b, name), at(&c, name));
        let old = sc.borrow_mut().set(name, v);
        (get(&sc, name), old, before.2, before.1, at(&b, name), before.0, at(&a, name))
    }
    pub fn bind_other(a: ScopeRef, name: &str, other: &str, v: VariableType) -> (Var, Var) {
        let sc = ScopeContext::new();
        sc.borrow_mut().push(a);
        let before = get(&sc, other);
        sc.borrow_mut().set(name, v);
        (before, get(&sc, other))
    }
    pub fn bind_nothing(name: &str, v: VariableType) -> (Var, Var) {
        let sc = ScopeContext::new();
        let old = sc.borrow_mut().set(name, v);
        (get(&sc, name), old)
    }
    pub fn rebind(a: ScopeRef, name: &str, v: VariableType, w: VariableType) -> (Var, Var) {
        let sc = ScopeContext::new();
        sc.borrow_mut().push(a);
        sc.borrow_mut().set(name, v);
        let old = sc.borrow_mut().set(name, w);
        (get(&sc, name), old)
    }
    pub fn level_removed(a: ScopeRef, name: &str, v: VariableType) -> (Var, Var, Var) {
        let sc = ScopeContext::new();
        sc.borrow_mut().push(a);
        let before = get(&sc, name);
        let level = Scope::new();
        sc.borrow_mut().push(level);
        sc.borrow_mut().set(name, v);
        let inside = get(&sc, name);
        sc.borrow_mut().pop();
        (get(&sc, name), inside, before)
    }
    pub fn popped(a: ScopeRef, b: ScopeRef) -> (Option<ScopeRef>, Option<ScopeRef>, Option<ScopeRef>) {
        let sc = ScopeContext::new();
        sc.borrow_mut().push(a);
        sc.borrow_mut().push(b);
        let x = sc.borrow_mut().pop();
        let y = sc.borrow_mut().pop();
        let z = sc.borrow_mut().pop();
        (x, y, z)
    }

    macro_rules! fetches {
        ($($f:ident $path:literal $t:ident $want:expr;)*) => {
            $(
                pub fn $f($t: TokenRef, ctx: ParserContextRef) -> (FetchableType, String) {
                    let sc = ScopeContext::new();
                    sc.borrow_mut().set("Var", VariableType::Token($t.clone()));
                    let got = FetchPattern::new($path).fetch_value(ctx, sc);
                    let $t = $t.borrow();
                    (got, $want)
                }
            )*
        };
    }
    fetches! {
        fetch_captured_value "Var.captured_value" t t.get_value().clone();
        fetch_matched_value "Var.matched_value" t t.get_matched_value().clone();
        fetch_start "Var.start" t format!("{}", t.get_matched_range().start);
        fetch_end "Var.end" t format!("{}", t.get_matched_range().end);
        fetch_captured_start "Var.captured_start" t format!("{}", t.get_captured_range().start);
        fetch_captured_end "Var.captured_end" t format!("{}", t.get_captured_range().end);
        fetch_range "Var.range" t format!("{}..{}", t.get_matched_range().start, t.get_matched_range().end);
        fetch_captured_range "Var.captured_range" t format!("{}..{}", t.get_captured_range().start, t.get_captured_range().end);
    }
    pub fn fetch_string(s: String, ctx: ParserContextRef) -> (FetchableType, String) {
        let sc = ScopeContext::new();
        sc.borrow_mut().set("Var", VariableType::String(s.clone()));
        (Fetch!("Var").fetch_value(ctx, sc), s)
    }
    pub fn fetch_matcher(m: MatcherRef, ctx: ParserContextRef) -> (FetchableType, MatcherRef) {
        let sc = ScopeContext::new();
        sc.borrow_mut().set("Var", VariableType::Matcher(m.clone()));
        (Fetch!("Var").fetch_value(ctx, sc), m)
    }
    pub fn fetch_plain_str(s: &str, ctx: ParserContextRef, sc: ScopeContextRef) -> (FetchableType, String) {
        (s.fetch_value(ctx, sc), s.to_string())
    }
    pub fn fetch_plain_string(s: String, ctx: ParserContextRef, sc: ScopeContextRef) -> (FetchableType, String) {
        (s.fetch_value(ctx, sc), s)
    }
    pub fn fetch_plain_matcher(m: MatcherRef, ctx: ParserContextRef, sc: ScopeContextRef) -> (FetchableType, MatcherRef) {
        (m.fetch_value(ctx, sc), m)
    }
}

/// The language of grammar scripts, and what it is compiled to.
pub mod script {
    use super::*;
    use adextopa_core::script::v1::parser::{compile_script_from_file, compile_script_from_str};

    /// what the text of a script is parsed with, and what a parsed script becomes
    pub fn compiled(src: &str, name: String) -> Result<MatcherRef, Vec<ParseError>> {
        compile_script_from_str(src, name, 0)
    }
    /// a script that may import others
    pub fn imported(file: &str) -> Result<MatcherRef, Vec<ParseError>> {
        compile_script_from_file(file, 0)
    }
    /// what compiling a file leaves behind for compiling it once more
    pub fn again(file: &str) -> Result<MatcherRef, Vec<ParseError>> {
        let _first = compile_script_from_file(file, 0);
        compile_script_from_file(file, 0)
    }
    /// a token of a parsed script
    pub fn token(ctx: ParserContextRef, name: &str, captured: SourceRange, matched: SourceRange, children: Vec<TokenRef>) -> TokenRef {
        let t = StandardToken::new_with_matched_range(&ctx.borrow().get_parser(), name.to_string(), captured, matched);
        for c in children.iter() {
            c.borrow_mut().set_parent(Some(t.clone()));
        }
        t.borrow_mut().set_children(children);
        t
    }
    /// what the grammar notes on a token
    pub fn noted(t: TokenRef, name: &str, value: String) -> TokenRef {
        t.borrow_mut().set_attribute(name, &value);
        t
    }
}
