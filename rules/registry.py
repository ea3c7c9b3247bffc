"""Which rule decides which property, over which witness programs."""
import accessors
import answers
import collect
import compiled
import grammar
import scopes
import visitor
import compose
import discard
import effects
import errors
import loops
import macros
import names
import structure
import terminals
import walk
import policy
import quiet
from common import FN


ABSINT = ('Sound dataflow over the MIR of the current tree for every path of the witness programs, children and closures opaque; '
          'obligations on values merged at loop heads can stay undecided and are counted in the evidence, never reported.')


class Check:
    """jobs: list of (witness program, rule name); rules: name -> function(u, R); facts: function(prog, R)"""

    def __init__(self, pid, title, rule, jobs=(), rules=None, mkpolicy=None, facts=None, thorough=(), needs=('obligations',),
                 budget=240, what='', floor=20, empty_ok=False, special=None, thorough_policy=None,
                 technique='path-sensitive abstract interpretation of MIR', note=''):
        self.pid, self.title, self.rule = pid, title, rule
        self.jobs, self.rules, self.mkpolicy = list(jobs), rules or {}, mkpolicy
        self.facts, self.thorough, self.needs, self.budget, self.what = facts, list(thorough), needs, budget, what
        self.technique, self.note = technique, note or ABSINT
        self.floor, self.empty_ok, self.special, self.thorough_policy = floor, empty_ok, special, thorough_policy


C = {}


def check(*a, **k):
    c = Check(*a, **k)
    C[c.pid] = c


def jobs(units, rule, debug=0):
    return [(u, rule, debug) for u in units]


ONE = effects.ONE
BIG = ['switch', 'looping', 'program']
NAMED = ['looping_named', 'program_named']

check('C01', 'fatal errors propagate unchanged', 'on every path after a child answered Err(Error(e)) the matcher returns that very value and executes nothing more',
      jobs(ONE, 'wrap') + jobs(BIG, 'many'),
      {'wrap': lambda u, R: answers.wrappers(u, R, lambda c: c == 'Error'), 'many': compose.fatal},
      thorough=jobs(NAMED, 'many') + jobs(ONE, 'wrap', 1) + jobs(ONE, 'wrap', 2))
check('C02', 'what each combinator makes of a recoverable failure', 'on every path after a child answered Err(Fail) the matcher does what the table for that combinator says',
      jobs(ONE, 'wrap') + jobs(BIG, 'many'),
      {'wrap': lambda u, R: answers.wrappers(u, R, lambda c: c == 'Fail'), 'many': compose.failed},
      thorough=jobs(NAMED, 'many') + jobs(ONE, 'wrap', 1) + jobs(ONE, 'wrap', 2))
check('C03', 'ordered choice', 'every execution of an alternative is at the entry cursor and in list order; the first success is returned unchanged',
      jobs(['switch'], 'choice'), {'choice': compose.choice}, thorough=jobs(['switch'], 'choice', 1) + jobs(['switch'], 'choice', 2))
check('C04', 'control signals', 'on every path after a child answered Break or Continue: returned with the same label and nothing executed, unless it is the loop it names',
      jobs(ONE + ['switch', 'program_one', 'looping_one', 'looping_one_named', 'looping_two', 'program', 'break_', 'break_named'], 'signals'),
      {'signals': compose.signals}, mkpolicy=compose.SignalPolicy, thorough=jobs(['program_named', 'looping_named'], 'signals') + jobs(ONE, 'signals', 1))
check('C06', 'transparent wrappers', 'on every path after a child answered Ok(…) the wrapper returns what its table entry says',
      jobs(ONE, 'wrap'),
      {'wrap': lambda u, R: answers.wrappers(u, R, lambda c: c.split('(')[0] not in FN)},
      thorough=jobs(ONE, 'wrap', 1) + jobs(ONE, 'wrap', 2))
check('C07', 'cursor isolation', 'at every child execution, callback and return the context handed in has the field values it had on entry',
      jobs(effects.LEAVES + ONE + BIG, 'cursor'), {'cursor': effects.cursor},
      thorough=jobs(NAMED, 'cursor'))
CJ, CR, CP = collect.jobs_of(collect.CURSORS, collect.goes_on, 'cursor')
check('C08', 'sequencing', 'consecutive child executions are child i then child i+1, the second starting where the answer of the first ends',
      jobs(['program', 'looping'], 'order') + CJ, {'order': compose.order, **CR}, mkpolicy={'order': policy.MatcherPolicy, **CP}, empty_ok=True, thorough=jobs(['program_named', 'looping_named', 'looping_unbounded'], 'order'))
check('C09', 'loop bounds', 'the number of executions of the first child, kept as a ghost counter, against the range of the loop',
      jobs(loops.UNITS, 'bounds'), {'bounds': loops.bounds}, mkpolicy=loops.LoopPolicy, budget=300, thorough=jobs(['looping_macro_named'], 'bounds'))
check('C10', 'loop progress', 'a further iteration starts only if the cursor moved in the last one or the lower bound is not reached',
      jobs(loops.UNITS, 'progress'), {'progress': loops.progress}, mkpolicy=loops.LoopPolicy, budget=300, thorough=jobs(['looping_macro_named'], 'progress'))
check('C11', 'matcher life cycle', 'typestate: a named matcher is registered in the scope before anything else runs, and children are executed as themselves',
      jobs(effects.LEAVES + ONE + BIG + ['looping_named', 'program_named'] + effects.AGAIN, 'lifecycle'), {'lifecycle': effects.lifecycle})
check('C12', 'scope discipline', 'the scope stack at each child execution and at each return against the one on entry',
      jobs(effects.LEAVES + ONE + BIG, 'scopes'), {'scopes': effects.scopes}, thorough=jobs(NAMED, 'scopes'))
check('C13', 'variables', 'every binding and lookup on every path: scope, name and value',
      jobs(effects.LEAVES + ONE + BIG, 'variables'), {'variables': effects.variables}, mkpolicy=effects.VarPolicy, empty_ok=True, thorough=jobs(NAMED, 'variables'))
check('C14', 're-entrancy', 'typestate of interior borrows: no mutable guard is held across a call that may re-enter',
      jobs(effects.LEAVES + ONE + BIG, 'borrows'), {'borrows': effects.borrows}, empty_ok=True, thorough=jobs(NAMED, 'borrows'))
check('C30', 'macros are self-contained', 'type-level witness: each arm of each exported macro is expanded in a crate that imports nothing, and type-checked',
      special=macros.check, technique='type-level witness: expansion and type check of every macro arm',
      note='Complete for the arms listed; decided by the compiler itself.')
check('C05', 'discarding', 'every walk over the discarded tokens visits each token once and keeps exactly those flagged as errors; the answer is the width skipped or the collected errors',
      jobs(['discard'], 'discards'), {'discards': discard.discards}, mkpolicy=walk.WalkPolicy)
check('C33', 'terminals', 'on every path that answers a token the path knows that the text at the cursor matches and lies in the window; on every failing path that it does not',
      jobs(terminals.ALL, 'terminals'), {'terminals': terminals.terminals}, mkpolicy=terminals.mkpolicy)
check('C34', 'structure', 'the children each matcher reports, right after building it and after replacing or adding one, against what was handed in',
      jobs(structure.UNITS, 'structure'), {'structure': structure.structure}, mkpolicy=structure.BuildPolicy)
check('C35', 'names', 'the name each matcher reports and each token carries, with a name given, replaced and left out, against what was given',
      jobs(names.UNITS + names.PASSES, 'names') + jobs(names.TOKENS, 'tokens'), {'names': names.names, 'tokens': names.tokens}, mkpolicy=policy.MatcherPolicy)
check('C16', 'text of ranges', 'the text handed out by each kind of token is one function of its source and its current range; that function panics for no range and answers the part the range delimits',
      jobs(accessors.TEXTS, 'texts') + jobs(['witness::tokens::range_text'], 'range') + jobs(accessors.LEAF, 'leaves') + jobs(accessors.CARRIED, 'carried'),
      {'leaves': accessors.carried, 'texts': accessors.texts, 'range': accessors.range_text, 'carried': accessors.carried},
      mkpolicy={'texts': accessors.AccessPolicy, 'range': accessors.TextPolicy, 'leaves': accessors.AccessPolicy, 'carried': policy.MatcherPolicy}, empty_ok=True)
check('C18', 'token accessors', 'everything that can be read from a token before and after each setter, for each kind of token, against the one thing the setter names',
      jobs(accessors.UNITS, 'accessors'), {'accessors': accessors.accessors}, mkpolicy=accessors.AccessPolicy)
check('C19', 'error tokens', 'the token or error each error matcher and assertion answers, on every path: flagged, its message and its range; and the walks that collect errors keep every flagged token',
      jobs(errors.REPORTS, 'reports') + jobs(['witness::api::tokenize'], 'collects') + jobs(['discard'], 'walk'),
      {'reports': errors.reports, 'collects': errors.collects, 'walk': lambda u, R: walk.error_walk(u, R, 'Discard collecting errors')},
      mkpolicy={'reports': errors.ErrorPolicy, 'collects': errors.ErrorPolicy, 'walk': walk.WalkPolicy})
CJ, CR, CP = collect.jobs_of(collect.LISTS, collect.collected, 'list')
check('C20', 'children collected', 'for fixed histories of answers with everything else opaque: the list of children of the group answered is exactly what was collected, in order, and the parent of each is the group',
      CJ, CR, mkpolicy=CP, empty_ok=True)
CJ, CR, CP = collect.jobs_of(collect.RANGES, collect.hull, 'range')
check('C21', 'range of a group', 'for fixed histories of answers with everything else opaque: both ends of both ranges of the group against those of everything it consumed, on every path',
      CJ, CR, mkpolicy=CP)
check('C22', 'visitor', 'each step of the walk over an opaque tree with opaque handlers: which handler is called with which token, in which order relative to the children, and what the walk answers',
      jobs(visitor.UNITS, 'visits'), {'visits': visitor.visits}, mkpolicy=visitor.VisitPolicy)
check('C36', 'levels of variables', 'for up to three opaque levels, what lookups answer before and after each operation; what Fetch reads for each attribute, against the token itself',
      jobs(scopes.LEVELS, 'levels') + jobs(scopes.FETCH, 'fetches'), {'levels': scopes.levels, 'fetches': scopes.fetches}, mkpolicy=scopes.ScopePolicy)

SCRIPT = ('Every alternative and optional part of the grammar, loops of no, one and two rounds, groups nested once, any two modifiers together; '
          'the text of every token is opaque. Regular expressions that are constants of the crate are taken to be well-formed.')


def script(pid, title, rule, decide):
    J, RU, PO = compiled.parts(pid, decide)
    _, _, ALL = compiled.parts(pid, decide, True)
    check(pid, title, rule, J, RU, mkpolicy=PO, budget=600, note=SCRIPT, empty_ok=True, thorough_policy=ALL,
          technique='abstract interpretation of MIR over the trees derived from the grammar graph')


script('C23', 'compiling never panics', 'every path of compiling each tree the grammar can produce, with opaque text, ends in a value', compiled.never)
script('C24', 'every construct compiles', 'for each tree the grammar can produce some text makes it compile to a matcher', compiled.translated)
script('C25', 'meaning of scripts', 'the graph of matchers each tree compiles to, on every path, is the one its modifiers, repetitions and groups stand for', compiled.meaning)
script('C37', 'errors of a script are reported', 'every path of compiling each tree with an error token in it ends in errors, and lists them', compiled.reported)
check('C26', 'the grammar terminates', 'the graph of matchers of the script grammar: least fixpoint of what can match nothing; no cycle without progress, no unbounded repetition of what can match nothing',
      jobs(['witness::script::compiled'], 'grammar'), {'grammar': grammar.terminates}, mkpolicy=grammar.GrammarPolicy, note=SCRIPT,
      technique='fixpoint over the grammar graph obtained by abstract interpretation of MIR')


FILES = ('Graphs of at most three files, with at most two import statements of at most two names in a file; file names and identifiers are opaque or as the grammar '
         'makes them, reading a file may fail. More files, and longer lists, are not looked at.')


def imports(pid, title, rule, table, name):
    J, RU, PO = compiled.roundabout(name, table)
    check(pid, title, rule, J, RU, mkpolicy=PO, budget=300, note=FILES, empty_ok=True,
          technique='abstract interpretation of MIR over graphs of files whose trees derive from the grammar graph')


imports('C27', 'imports', 'what a file that imports others defines and compiles to is, on every path, what binding exactly the listed names stands for; a name the other file lacks ends in an error',
        compiled.IMPORTS, 'import')
imports('C28', 'imports end', 'no path of compiling files that import each other parses a file without end; what is noted while a file compiles is undone on every path out of it',
        compiled.CYCLES, 'cycle')

QJ, QR, QP = quiet.parts()
check('C15', 'debugging changes nothing', 'for each thing that happens on a path at one debug level (execution, binding, look-up, panic, answer) there is a path at the other levels where the same happens under conditions that do not contradict',
      QJ, QR, mkpolicy=QP, empty_ok=True, technique='relational comparison of the paths found by abstract interpretation of MIR at each debug level',
      note='Levels 0, 1 and all above; groups of at most two children with the answers of a fixed history. Conditions are only compared for contradiction, so a bound that shifts under debugging is missed; '
           'paths over values merged at loop heads stay undecided.')
