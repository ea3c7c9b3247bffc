#!/usr/bin/env python3
"""Writes properties.jsonl (the list below) and MANIFEST.json (the registry plus the levels below)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/rules']
M = 'src/matchers/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': None}})


ALLM = [M + f + '.rs' for f in ('program', 'optional', 'not', 'discard', 'catch', 'map', 'proxy_children', 'debug', 'pin', 'store',
                                'set_scope', 'reference', 'expand_range')]

prop('C01', 'Fatal errors propagate unchanged through every combinator',
     'When any nested matcher answers with a fatal error, every combinator around it answers with exactly that error and executes no further matcher. '
     'The only exceptions are the two combinators that take a failure handler (Catch, and Map with two closures), which hand the error to the handler.',
     ['programs', 'inputs'], 'every combinator, every nested matcher (built-in or user-written), every position in the list, every text',
     'Tests run a dozen grammars that hardly ever raise a fatal error; the guarantee is about every child at every position of every combinator.',
     ALLM, [('match on the answer of the child', 'fn _exec of each matcher'), ('Err(Error) arm of the child loop', M + 'program.rs ProgramPattern::_exec')],
     observe=['the value returned by Matcher::exec', 'the sequence of Matcher::exec calls'])
prop('C02', 'What each combinator makes of a recoverable failure',
     'A recoverable failure of a nested matcher makes a Program fail, moves a Switch on to its next alternative, ends a Loop with what it has, and turns Optional and Not into a success that consumes nothing; '
     'the assertion and fatal combinators turn it into their error or into nothing as documented; every other wrapper passes it on unchanged.',
     ['programs', 'inputs'], 'every combinator, every child, every position, every text',
     'Tests sample single grammars; the table must hold for any child failing at any point.',
     ALLM, [('match on the answer of the child', 'fn _exec of each matcher'), ('finalize_program_token', M + 'program.rs')],
     observe=['the value returned by Matcher::exec'])
prop('C03', 'Ordered choice: the first alternative that succeeds wins, unchanged',
     'A Switch tries its alternatives one at a time in the order given, each from the same cursor, and answers exactly what the first successful one answers. '
     'It fails only when every alternative was tried and none succeeded.',
     ['programs', 'inputs'], 'any number of alternatives with any answers, including discarded tokens, empty skips and control signals',
     'Tests have two or three alternatives that answer tokens or fail.',
     [M + 'program.rs'], [('MatchAction::Stop arms of the child loop', M + 'program.rs ProgramPattern::_exec')],
     observe=['the sequence of Matcher::exec calls and their cursors', 'the value returned'])
prop('C04', 'Break and Continue reach the construct they name',
     'A Break or Continue raised anywhere inside a matcher leaves every enclosing construct, which executes nothing more, until it reaches the Loop it names (or the nearest Loop when it names none); '
     'its label is never changed on the way. A Break ends that Loop with what was collected; a Continue starts its next iteration from the first child.',
     ['programs', 'inputs'], 'every nesting of combinators between the signal and the loop, every label, every payload',
     'Tests cover a handful of nestings with a Program between the signal and the loop.',
     [M + 'program.rs', M + 'break_loop.rs'], [('iteration_result match', M + 'program.rs ProgramPattern::_exec'), ('exec', M + 'break_loop.rs')],
     observe=['the value returned by Matcher::exec', 'the sequence of Matcher::exec calls'])
prop('C05', 'Discard consumes but never shows what it matched',
     'A Discard around a matcher that matched answers a skip by exactly the matched width and never a token, also inside a Break or Continue, except for the error tokens found inside, which are kept; '
     'answers that carry no token pass unchanged.',
     ['programs', 'inputs'], 'every child, every answer including nested signals, every token tree',
     'Tests discard plain tokens at one nesting depth.',
     [M + 'discard.rs'], [('match on the answer', M + 'discard.rs exec')], observe=['the value returned by Matcher::exec'])
prop('C06', 'Wrappers are transparent to what they do not handle',
     'Each wrapping combinator returns every success of its child that is not its business exactly as it got it, same token and same labels, and transforms the ones that are its business as documented: '
     'Not inverts, ProxyChildren replaces a token by its children also inside control signals, Map hands tokens to its closure and returns what the closure returns.',
     ['programs', 'inputs'], 'every wrapper, every child, all nine kinds of answers, all payloads of control signals',
     'Tests run most wrappers around a matcher that answers a token or fails; the other answers and payloads are not exercised.',
     ALLM, [('match on the answer of the child', 'fn exec of each matcher')], observe=['the value returned by Matcher::exec', 'closure calls'])
prop('C07', 'A matcher never moves the cursor of its caller',
     'Executing any matcher leaves the context it was given as it was: position, window, debug level, scope, parser and name are on return, and at every nested call, what they were on entry. '
     'Only the answer tells the caller what was consumed, so backtracking needs no undo.',
     ['programs', 'inputs', 'histories'], 'every matcher, every path through it, successful or failing, every text and cursor',
     'A leaked cursor change shows only when a caller reuses the context after a failure in a particular position.',
     ALLM + ['src/parser_context.rs'], [('sub-contexts cloned before they are changed', 'fn exec of each matcher'), ('ParserContext::clone_with_name', 'src/parser_context.rs')],
     state=[('offset', 'cursor and end of the window', 'src/parser_context.rs ParserContext')], observe=['the context after Matcher::exec'])
prop('C08', 'A sequence runs every child in order, each where the last one ended',
     'A Program, and each iteration of a Loop, executes its children in the order given without leaving one out, the first at the cursor it was given and each later one where the answer of its predecessor ended; '
     'children that consume nothing leave the position alone. All of them see the same end of input.',
     ['programs', 'inputs'], 'any number of children, any answers, any text',
     'Tests check the tokens of short grammars; which child was given which position is never observed.',
     [M + 'program.rs'], [('child loop and handle_token/handle_skip/handle_extract_token', M + 'program.rs')],
     state=[('offset.start', 'position of the next child', M + 'program.rs sub_context')], observe=['the sequence of Matcher::exec calls and their cursors'])
prop('C09', 'A Loop respects its bounds',
     'A Loop never runs an iteration beyond its upper bound, and does not succeed, unless left by Break, with fewer complete iterations than its lower bound.',
     ['programs', 'inputs', 'configurations'], 'every range, every number of iterations, every sequence of child answers',
     'Tests use three ranges and texts of a few words.',
     [M + 'program.rs'], [('for over the range and finalize_program_token', M + 'program.rs'), ('get_range', M + 'program.rs')],
     state=[('loop_count', 'complete iterations', M + 'program.rs ProgramPattern::_exec')], observe=['number of executions of the first child', 'the value returned'])
prop('C10', 'A Loop that makes no progress stops',
     'Once its lower bound is reached, a Loop starts another iteration only if the previous one moved the position, so a loop whose children consume nothing always ends.',
     ['programs', 'inputs'], 'every child that can succeed without consuming, every range including unbounded ones',
     'A loop that does not end cannot be observed by a test that passes; none of the tests has an iteration that consumes nothing.',
     [M + 'program.rs'], [('comparison with the start of the iteration', M + 'program.rs ProgramPattern::_exec')], observe=['executions of the first child'])
prop('C11', 'Named matchers are registered before anything inside them runs',
     'Executing a matcher that was given a name makes that matcher available under its name in the scope it runs in before any nested matcher or closure runs; a matcher that was given no name registers nothing for itself. '
     'Every nested matcher is executed with itself as its own handle.',
     ['programs', 'histories'], 'every matcher, every order of definitions and recursive references',
     'Tests use a few recursive references; a matcher that forgets to register shows only in grammars that refer to it by name.',
     ALLM + ['src/matcher.rs'], [('before_exec', 'src/matcher.rs Matcher'), ('exec', 'each matcher')],
     observe=['bindings in the scope when a nested matcher is executed'])
prop('C12', 'Scopes are balanced and handed down',
     'Every matcher leaves the stack of scopes as deep as it found it on every path, including failures, and executes its nested matchers in the scope it was given; '
     'only SetScope runs its child in another scope, or in a fresh level that is removed again.',
     ['programs', 'inputs', 'histories'], 'every matcher and path, including early returns on failures',
     'An unbalanced level shows only after a failing child inside the scoped matcher.',
     [M + 'set_scope.rs', 'src/scope_context.rs', 'src/scope.rs'], [('push_scope / pop_scope', M + 'set_scope.rs'), ('ScopeContext', 'src/scope_context.rs')],
     state=[('stack', 'the levels of variables', 'src/scope_context.rs ScopeContext')], observe=['the scope at each nested call and on return'])
prop('C13', 'Store, Register, Fetch and Ref bind and look up what they name',
     'Store binds its variable, in the scope it runs in, to exactly the token its matcher produced and binds nothing when its matcher answers anything other than a token; Register binds each matcher under its own name and runs none of them; '
     'a reference runs the matcher found under its target name in the scope it runs in, and answers an error when there is none. No other matcher binds a variable.',
     ['programs', 'histories'], 'every name, scope and answer of the stored matcher',
     'Tests store one token and refer to a few names.',
     [M + 'store.rs', M + 'register.rs', M + 'fetch.rs', M + 'ref.rs'], [('scope.set / scope.get', 'the files named')],
     observe=['bindings and lookups in the scope'])
prop('C14', 'Matchers can be re-entered: nothing stays borrowed across a nested call',
     'While a nested matcher or a user closure runs, no matcher holds an exclusive borrow of any shared object nor any borrow of the scope, so recursive grammars and closures that use the context or the scope never panic with a borrow conflict.',
     ['programs', 'histories'], 'every recursive grammar, every closure, every matcher',
     'Borrow conflicts surface only for particular nestings; tests have few recursive grammars and closures that do little.',
     ALLM, [('scopes of the borrow guards', 'fn exec of each matcher')], observe=['outstanding borrows at each nested call'])
prop('C15', 'Debug output changes nothing but the output',
     'Turning on a debug level changes what is printed and nothing else: answers, tokens, executed matchers and their positions are the same for every level.',
     ['configurations', 'programs', 'inputs'], 'every debug level, every matcher, every text',
     'The tests run with debugging off.',
     ALLM, [('code under is_debug_mode / debug_mode_level', 'all matchers')], observe=['the value returned by Matcher::exec'])
prop('C16', 'The text of a token is the text of its range',
     'The captured and matched text of a token are always the part of the source its captured and matched ranges delimit, also after a range was set, and taking the text of a range never panics, whatever the range.',
     ['inputs', 'histories'], 'every range including reversed, out-of-bounds and non-boundary ones, every order of updates',
     'Tests read the text of tokens right after matching.',
     ['src/source_range.rs', 'src/token.rs'], [('SourceRange::to_string', 'src/source_range.rs'), ('set_captured_range / set_matched_range', 'src/token.rs')],
     observe=['Token::get_captured_value / get_matched_value'])
prop('C17', 'Scanning never cuts a character in two',
     'Matchers that scan the text advance by whole characters and never ask for a part of the text that begins or ends inside a character or outside the text, so matching never panics on non-ASCII text.',
     ['inputs'], 'every Unicode text, every cursor at a character boundary, every pattern',
     'The tests scan ASCII text.',
     ['src/parser_context.rs', M + 'sequence.rs', M + 'equals.rs', M + 'matches.rs'], [('offset arithmetic', 'the files named')],
     observe=['slicing of the source'])
prop('C18', 'Every kind of token honours the accessor contract',
     'For every kind of token, what was set for a range, name, value, parent, flag, attribute or list of children is what is read back, enabling or disabling one flag leaves the others alone, and setting one property leaves the others alone.',
     ['histories'], 'every kind of token, every sequence of accessor calls',
     'Tests call few accessors, and only on standard tokens.',
     ['src/token.rs', M + 'pin.rs', 'adextopa_macros/src/lib.rs'], [('impl Token', 'src/token.rs, src/matchers/pin.rs, adextopa_macros')],
     observe=['getters of Token'])
prop('C19', 'Error tokens are marked and carry their message',
     'Every error a matcher reports inside the token tree is a token flagged as an error that carries its message, and its range is where the matcher ran; a token flagged so is never left out by Discard or by collecting the errors.',
     ['programs', 'inputs'], 'every error matcher and assertion, every text',
     'Tests check one message each.',
     [M + 'error.rs', M + 'panic.rs', 'src/token.rs'], [('ErrorTokenResult!', 'src/matchers/error.rs'), ('collect_errors', 'src/parser_context.rs')],
     observe=['flags and attributes of the returned token'])
prop('C20', 'Parents and children agree',
     'Every child a Program, Loop or Switch collects has that construct as its parent, the collected children are in the order they were matched, and none is lost or listed twice.',
     ['programs', 'inputs'], 'any number of children, with proxied children and error tokens in between',
     'Tests look at the tree of short grammars and do not check parents.',
     [M + 'program.rs', M + 'expand_range.rs'], [('add_token_to_children', M + 'program.rs')], observe=['Token::get_parent / get_children'])
prop('C21', 'The range of a group is the hull of what it consumed',
     'The range of the token of a Program or Loop starts no later than that of any child it consumed and ends no earlier, and includes skipped text only as documented; its ranges are set before it is returned. An error without width among its children never gets a range that starts behind its end.',
     ['programs', 'inputs'], 'any number of children, any ranges',
     'Tests check the ranges of short grammars.',
     [M + 'program.rs'], [('contain_source_range', M + 'program.rs')], observe=['ranges of the returned token'])
prop('C22', 'Visitors see every token once, in document order, and errors stop the walk',
     'Walking a token tree with a TokenVisitor calls, for every token, the handler registered for its name (the first one registered), or the one registered for "*" when there is none for its name; it calls it exactly once, before the children of that token and in document order; the first error a handler returns ends the walk and is its result, and a walk without errors answers success.',
     ['inputs', 'programs'], 'every tree, every set of handlers',
     'Tests visit one small tree.', ['src/token_visitor.rs'], [('TokenVisitor::visit', 'src/token_visitor.rs')], observe=['handler calls', 'result of the walk'])
prop('C23', 'Compiling a parsed script never panics',
     'Turning a parsed grammar script into matchers ends with a matcher or with an error value: no form the grammar can produce and no text in it (empty text, bad regular expressions, numbers that do not fit) makes it panic.',
     ['inputs'], 'every tree the script grammar can produce, every text of its tokens',
     'Tests compile correct scripts.', ['src/script/v1/parser.rs', 'src/script/v1/matchers'], [('build_matcher_from_tokens, construct_matcher_from_*', 'src/script/v1/parser.rs'), ('get_repeat_specifier_range', 'src/script/v1/matchers/repeat_specifier.rs')],
     observe=['result of compile_script_from_str'])
prop('C24', 'Every construct the script grammar accepts is compiled',
     'Every kind of node the script grammar can produce has a translation, and the translation reads only parts that the grammar gives that kind of node: for every form of script without imports and without errors there are texts with which it compiles to a matcher.',
     ['inputs'], 'every construct of the script language in every position',
     'Tests compile a few constructs.', ['src/script/v1/parser.rs', 'src/script/v1/matchers'],
     [('names in the grammar against names in the builder', 'src/script/v1')], observe=['result of compile_script_from_str'])
prop('C25', 'Modifiers, repetition and grouping mean what the script language says',
     'What a script compiles to is what it says: = is Equals of the text, /../ is Matches of the expression with its flags before it, % is Sequence of start, end and escape, an identifier is a Ref to that name, [..|..] is a Switch and {..} a Program of the patterns listed in order. '
     'Around that, from the inside out: attributes are set on the token by a Map, the inner ? or ! is Optional or Not, a repetition is a Loop with the bounds written (* is 0.., + is 1.., {m,} is m.., {m,n} is m..n), the outer ? or ! is Optional or Not, and a pattern without parentheses is discarded. '
     'An assignment binds its name in the scope of the script, to a Ref if an identifier is assigned, and to the undiscarded pattern otherwise, and nothing else is bound; the name attribute of the header names the root.',
     ['inputs'], 'every combination of kinds, modifiers and repetitions, nested', 'Tests use single modifiers.',
     ['src/script/v1/parser.rs'], [('construct_matcher_from_inner_definition and its callers', 'src/script/v1/parser.rs')],
     observe=['the matcher built by compile_script_from_str'])
prop('C26', 'The script grammar always terminates',
     'The grammar of the script language has no construct that can re-enter itself without consuming text and no unbounded repetition of something that can match nothing, so parsing any text ends.',
     ['inputs'], 'every text', 'Non-termination cannot be sampled.',
     ['src/script/v1/matchers'], [('the grammar', 'src/script/v1/matchers')], observe=['the matchers handed to ParserContext::tokenize by compile_script_from_str'])
prop('C37', 'A script with a syntax error does not compile',
     'Whenever parsing a script left an error token anywhere in the tree, compiling answers errors and no matcher, and unless compiling itself fails first, the message of every error token is among them.',
     ['inputs'], 'every tree the script grammar can produce with error tokens in it',
     'Tests of errors look at the tree, not at the result of compiling.', ['src/script/v1/parser.rs', 'src/token_visitor.rs'],
     [('build_matcher_from_tokens', 'src/script/v1/parser.rs')], observe=['result of compile_script_from_str'])
prop('C27', 'Imports bind exactly the names they list',
     'Importing binds each listed name of the imported file, under its alias if one is given, in the importing scope and nothing else; an import of an unknown name is an error, and so is importing the root pattern `_` of a file without giving it a name.',
     ['inputs'], 'every import statement', 'Tests import one or two names.',
     ['src/script/v1/parser.rs'], [('import handling', 'src/script/v1/parser.rs')], observe=['scope after an import'])
prop('C28', 'Imports terminate, also when files import each other',
     'Compiling files that import each other, directly or through others, always ends; that a file is being compiled is forgotten when its compilation ends, whether it succeeds or fails, so that the same file can be compiled or imported again.',
     ['inputs', 'histories'], 'every graph of files', 'Tests import one file.',
     ['src/script/v1/parser.rs'], [('record of files being compiled', 'src/script/v1/parser.rs')], observe=['nesting of imports'])
prop('C36', 'Variables live in levels, and Fetch reads what it names',
     'A lookup finds the binding of the innermost level that has one for the name, and none when no level has one; binding a name changes the innermost level only, replaces what that level bound to the name and leaves every other name and level as they were; removing a level restores what was found before it was added. '
     'Fetch answers the string or matcher bound to its name, or for a bound token exactly the attribute it names (captured_value, matched_value, start, end, captured_start, captured_end, range, captured_range); a plain string or matcher fetches itself.',
     ['histories', 'inputs'], 'every stack of levels, name and value; every attribute of every token',
     'Tests look up one name in two levels and fetch a few attributes.',
     ['src/scope_context.rs', 'src/scope.rs', M + 'fetch.rs'], [('ScopeContext::get / set', 'src/scope_context.rs'), ('FetchPattern::fetch_value', M + 'fetch.rs')],
     observe=['ScopeContext::get', 'Fetchable::fetch_value'])
prop('C30', 'Every exported macro works in a crate that imports nothing',
     'Each form of each exported macro can be used by a client that imports nothing from the crate and depends on nothing but it.',
     ['programs'], 'every arm of every exported macro, any set of names in the scope of the client',
     'The tests live inside the crate, where every name the macros use is in scope.',
     ['src/lib.rs', 'src/matchers', 'src/script/v1/matchers'], [('paths in macro bodies', 'every macro_rules! with macro_export')], observe=['type-checking a client'])
prop('C33', 'Terminal matchers match at the cursor and inside the window',
     'A matcher for a literal, regular expression or quoted sequence answers a token only for text that begins at the cursor and ends within the input window, its range is exactly that text, and it fails otherwise without looking elsewhere.',
     ['inputs', 'programs'], 'every text, cursor, window and pattern', 'Tests match short texts from position 0.',
     [M + 'equals.rs', M + 'matches.rs', M + 'sequence.rs', 'src/parser_context.rs'], [('matches_str / matches_regexp', 'src/parser_context.rs')],
     observe=['the value returned by Matcher::exec'])
prop('C34', 'The structure of a grammar is what was composed',
     'The children a matcher reports are those it was built from, in order, whichever macro or constructor built it, and replacing a child by index or adding one changes exactly that.',
     ['programs', 'histories'], 'every matcher, every way to build it, every index', 'Tests never inspect or replace children.',
     ALLM, [('get_children / set_child / add_pattern', 'each matcher')], observe=['Matcher::get_children'])

prop('C35', 'A matcher is called what it was named, and so are its tokens',
     'A matcher given a name reports that name, also after it was renamed, and the tokens it produces carry it; a matcher without one uses the default name of its kind; wrappers without a name of their own hand the name on to what they wrap.',
     ['programs', 'histories'], 'every kind of matcher, every name, every order of naming', 'Tests name a few matchers and use constant names.',
     ALLM, [('get_name / set_name / new_with_name', 'each matcher')], observe=['Matcher::get_name', 'Token::get_name'])

NA = {
    'C17': 'Needs an invariant on byte offsets merged at loop heads (every index a scan reaches lies on a character boundary of an arbitrary text), which the '
           'domain of the analysis (linear forms, no relation between an offset and the encoding of the text) cannot express; a rule that only knew the idioms of '
           'today would judge how the code is written. The defects found while reading are fixed (see known-findings.txt).',
}


def main():
    import registry
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        c = registry.C.get(p['id'])
        if not c:
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                       'technique': c.technique, 'level': 'other', 'level_note': c.note})
    na = [{'property': p['id'], 'reason': NA.get(p['id'], 'no check yet: the static rule for it is not written')} for p in P if p['id'] not in registry.C]
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis only: facts come from the compiler (MIR of /repo, dumped by /verif/driver), rules are in /verif/rules; see DESIGN.md.'}
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)


main()
