"""Per property: technique, level note, oracle, and what the enumeration reaches that tests do not.

(technique, level_note, oracle, reach)
"""
MODEL = 'bounded exhaustive exploration of the real compiler and interpreter against an executable reference model'
REL = 'bounded exhaustive exploration of the real code against relations between its executions'
FAULT = 'exhaustive fault-point enumeration on the real code against an executable reference model'
NOTE = {
'C01': (REL + ' and an independent tokenizer', 'every document of the stated token and character alphabets up to the stated length',
        'An independent HTML tokenizer (written for the check) reads the source and the output; both token sequences must agree after removing what the statement permits. The output must also be a fixed point.',
        'All neighbourhoods of all token kinds: what is dropped or merged only next to something else.'),
'C02': (MODEL, 'every sequence of start, end, self-closing tags and text over one representative (and, at smaller depth, every member) of every tag class',
        'A model of the open-element stack with the closing classes of HTML, giving the output tree or the position of the error.',
        'The stack has unbounded history; the classes interact three and four deep.'),
'C03': (REL + ' and an independent XML reader', 'every document over the stated construct alphabets, plus all short character sequences in text and attribute values',
        'The source and the output are read by an event reader built directly on expat with namespace processing off; event lists are compared (declarations of one tag as a set).',
        'Every pair and triple of neighbouring constructs, every nesting of namespace declarations in the bounds.'),
'C04': (REL + ' and an independent tokenizer', 'every string of the stated length over 12 or more significant characters at every insertion point',
        'The output for the string is tokenized; the tag structure must be that for a harmless value, and the decoded text or attribute value must be the string itself.',
        'Escaping faults depend on two or three particular characters next to one another at a particular place.'),
'C05': (MODEL, 'every subset of statements, every written order, every nesting of the stated depth, every outcome of every expression',
        'The reference model walks the template tree and gives the exact engine calls in order and the output.',
        'Products of statement subsets, orders, outcomes and nestings.'),
'C06': (MODEL, 'every ordered set of static, computed and translated attributes up to the stated size and every kind of value', 'Reference model: attribute merge and rendering.',
        'Products of kinds of attributes, values, case variants and modes.'),
'C07': (MODEL, 'every element form, statement combination and value kind in the bounds', 'Reference model.', 'Form x mode x statement x value.'),
'C08': (MODEL + '; fault enumeration', 'every nesting of scope-making constructs up to the stated size, with and without a failure at each evaluation',
        'The visible variables are recorded at every evaluation on both sides and compared; scope depth must return to its start.',
        'Scope instructions are moved and merged by the optimizer, so leaks depend on neighbouring siblings.'),
'C09': (FAULT, 'every template of the family x every event (single faults; pairs on the smaller family) at which the engine can fail',
        'The same fault is injected at the same event of the model; outputs, later events, visible variables, exception identity are compared.',
        'Each fault point leaves different partial state behind.'),
'C10': (MODEL, 'every composition of uses, slots, fillers and extensions up to the stated number of constructors, for every macro library of the family',
        'Reference model: frames with fillers, chosen by the extension rule.', 'Wrong-frame faults need particular nestings.'),
'C11': (REL + ' and the reference model', 'every composition up to the stated number of constructors', 'render(expand(T)) = render(T), expand(expand(T)) = expand(T), and expand(T) equals the model\'s expansion.',
        'A relation between renderings over all compositions.'),
'C12': (MODEL, 'every nesting of units, names, domains and TAL statements up to the stated size; all short message texts', 'Reference model gives the exact translate calls (id, mapping, default, domain) and the output.',
        'Names, domains and whitespace leak only between particular neighbours.'),
'C13': (REL, 'every template of the family, every branch rendered', 'The set of messages looked up by rendering all branches must equal the extracted catalogue (id, default, domain, file, line); warnings are predicted from the lookups.',
        'Two interpreters over the same programs must agree on all of them.'),
'C14': ('exhaustive exploration of operation histories on the real code', 'every sequence of operations up to the stated length on shared compiled programs',
        'Every step is compared with the same operation on a freshly compiled program, and the program with a deep copy taken at the start.', 'Only histories expose shared mutable state.'),
'C15': ('systematic schedule exploration (preemption-bounded, line granularity) of the real code', 'every schedule with at most the stated number of preemptions at every line of the code under test',
        'The result of each thread under the schedule equals its result alone.', 'Unit tests run one schedule.'),
'C16': (MODEL, 'every composition and layout in the bounds; every failing evaluation', 'The AST printer knows line and column of every start tag; the model gives file and position at every evaluation.',
        'Positions are announced and restored in many places; a missing restore shows only for what follows it.'),
'C17': (MODEL + '; exhaustive sweep of short inputs', 'every set of up to 3 attributes out of 27 with good and bad values, every placement, and every short token and character sequence',
        'The model\'s static rules decide accept/reject, kind and position; for arbitrary text only the documented errors may come out.', 'The rule set is a product of placements and combinations.'),
'C18': (REL + ' and the reference model', 'every template of the family x every width in the stated range x annotations x tracing',
        'The unwrapped text from the model; breaks only between attributes and exactly where the column rule says; annotations removed gives the plain document, each names the file and line of what follows.',
        'Column arithmetic must be right after every kind of preceding output, at every width.'),
'C19': (MODEL, 'every small markup value over the stated token alphabets x insertion point x attribute statements x strictness x what follows', 'Reference model with its own parser for inserted markup.',
        'Values run through a nested compiler; leaks show in what follows.'),
'C20': (MODEL, 'every nesting of declarations, rebindings and prefixed names up to the stated depth', 'A model of prefix scopes decides what is a directive; consistent renaming must not change the result.',
        'Scoping faults need particular nestings of (re)declarations.'),
'C21': ('exhaustive exploration of operation histories of the bundled engine against a model', 'every history up to the stated length; every expression form x state; every short message', 'A stack of dictionaries over a global one; a direct reading of each expression form; a scanner of placeholders.',
        'Aliasing of scope dictionaries shows only for particular sequences.'),
'C22': (MODEL, 'every statement text up to the stated length over the significant characters', 'An independent parser of statement lists.', 'Doubling, whitespace, keywords and line breaks interact.'),
'C23': (REL, 'every split of every template of the family into pieces up to the stated number, every delivery route, encoding and newline form', 'All routes must give the same result as the plain string.', 'Split points interact with buffering.'),
'C24': (MODEL, 'every limit, depth and recursion shape in the bounds, every sequence of uses, every mode and version', 'Reference model with explicit depth; METAL error exactly at the limit.', 'Off-by-one and leaks need particular depths and histories.'),
'C25': (REL + ' and the reference model', 'every template of the family x every setting of the switches', 'The shown source must be the written source; hidden directives give the document without them; reparse gives an equivalent template.', 'Each switch selects other handlers.'),
'C26': (REL + ' and the reference model', 'every file name form x mode x template; every set of switches; every chain of page, library and second library', 'The interpreter called directly with the options; the reference model with macros looked up by file.',
        'Switches and file forms multiply.'),
'C27': (MODEL + '; fault enumeration', 'every script type, content of up to the stated number of parts and surrounding; failures at every evaluation', 'Reference model: the code given to the engine is the rendered content.', 'Scripts redirect the output while rendered.'),
'C28': (MODEL + '; fault enumeration', 'every template of the family x a failure at every evaluation x a failure of the stream at every write x every kind of stream', 'Reference model: the complete document and the part rendered before the failure; what was written must lie between them.',
        'What has been written at a failure depends on where it happens.'),
'C29': (MODEL + '; fault enumeration', 'every template of the family x every kind of compiled expression, default value, engine and compiler object', 'Reference model with the ordinary engine; the objects given to the code refuse whatever their interface does not document.',
        'Wrong tests for truth or equality show only with objects the tests do not use.'),
}
