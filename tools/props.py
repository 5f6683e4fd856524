#!/usr/bin/env python3
"""Single source of the property texts: writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from rules import registry

PROPS = []
def P(id, title, statement, over, q, why, files, mech, na=None, tech=None, note=None, state=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, na=na, tech=tech, note=note, state=state))

SP, SE, SR = 'svd-parser/src/', 'svd-encoder/src/', 'svd-rs/src/'
IN = ['inputs']; INC = ['inputs', 'configurations']; HI = ['histories', 'inputs']
PARS = [SP + x + '.rs' for x in ('device', 'cpu', 'peripheral', 'cluster', 'register', 'field', 'enumeratedvalue', 'enumeratedvalues', 'dimelement', 'interrupt', 'addressblock', 'registerproperties', 'writeconstraint', 'bitrange')]
ENCS = [x.replace(SP, SE) for x in PARS]
MODS = [x.replace(SP, SR) for x in PARS]

P('C01', 'Parsing takes every property of an element from its own XML child',
  'For every description file, each property of each parsed element (device, CPU, peripheral, cluster, register, field, enumerated values, dimension, interrupt, address block, bit range, write constraint) is the value of the like-named child element or attribute of that XML element, read with the grammar of its type; an absent optional child gives an absent property. Parsing an element succeeds exactly when all its mandatory children are present, every present child reads correctly and the assembled element passes validation at the configured level.',
  IN, 'every XML document, every parser configuration', 'the tests parse a handful of documents; every (element, property) pair and every combination of present, absent and malformed children is needed',
  PARS, [('the per-element Parse implementations', SP + '*.rs'), ('optional/mandatory child helpers', SP + 'elementext.rs')])
P('C02', 'Parsing keeps all repeated children, in document order',
  'The peripherals, registers and clusters, fields, enumerated values, interrupts, address blocks and dimension indices of a parsed element are exactly the corresponding child elements in document order, none dropped, duplicated or reordered; an unknown element among registers and clusters is an error.',
  IN, 'every XML document', 'order and completeness over lists of any length cannot be sampled', PARS, [('child iteration in the Parse implementations', SP + '*.rs')])
P('C03', 'Number texts are read by the CMSIS-SVD number grammar',
  'An integer text is read as decimal, hexadecimal after 0x/0X, or binary after # or 0b, where a don\'t-care digit x is read as zero, surrounding white space being ignored; the parsed value is the mathematical value of the text. Every text outside the grammar, including out-of-range numbers, is an error and never a wrong number.',
  IN, 'every text', 'the number of texts is unbounded', [SP + 'types.rs', SP + 'dimelement.rs'], [('number readers', SP + 'types.rs')])
P('C04', 'Boolean and text contents are read exactly',
  'A boolean is true exactly for "true" or "1", false exactly for "false" or "0", and anything else is an error. A text property is the content of its element; surrounding white space removed; an empty or missing content of a mandatory text is an error and of an optional one makes the property absent.',
  IN, 'every element content', 'the tests cover a few words', [SP + 'types.rs', SP + 'elementext.rs'], [('text and boolean readers', SP + 'types.rs'), ('element helpers', SP + 'elementext.rs')])
P('C05', 'All three bit-range notations mean the same bits',
  'A field\'s bit range read from [msb:lsb], from lsb and msb, or from bitOffset and bitWidth has offset lsb and width msb-lsb+1 (respectively the given offset and width), and records which notation was used; where several are present [msb:lsb] counts before lsb and msb, and these before bitOffset and bitWidth. A malformed bit-range text, a range with msb below lsb, one whose width does not fit, or no complete notation at all is an error.',
  IN, 'every combination of the bit-range children and every text in them', 'three notations times all numbers', [SP + 'bitrange.rs', SR + 'bitrange.rs'], [('bit range reader', SP + 'bitrange.rs'), ('range constructors', SR + 'bitrange.rs')])
P('C06', 'Keyword tables of reader and writer are inverse to each other',
  'For every keyword-valued property (access, usage, endian, data type, protection, address-block usage, modified write values, read action) the writer\'s word for each value is read back as that value, distinct values have distinct words, and a word outside the table is an error.',
  IN, 'every value of every keyword type and every text', 'tests use a few keywords; the tables have over a hundred entries', [SR + x for x in ('access.rs', 'cpu.rs', 'datatype.rs', 'endian.rs', 'protection.rs', 'modifiedwritevalues.rs', 'readaction.rs', 'usage.rs', 'addressblock.rs')], [('as_str/parse_str pairs', SR + '*.rs')])
P('C07', 'Parsing never silently discards a malformed value',
  'If the content of any child element or attribute that the parser reads is malformed, reading the element fails with an error, and so does every element around it; no malformed value is replaced by a default, an absent property or a skipped element, other than where the configuration explicitly says so.',
  IN, 'every document with a malformed value at any place', 'the places where an error can be dropped multiply with the elements', [SP + '*.rs'], [('error propagation in the Parse implementations', SP + '*.rs')])
P('C08', 'The parser never panics',
  'Reading any text as a device, however malformed, returns a result (up to the optional expansion steps): there is no reachable panic from arithmetic overflow, missing values, indexing, slicing or assertion in the parser, the validation and the building of elements.',
  IN, 'every input text and configuration', 'panics hide on unusual inputs', [SP + '*.rs', SR + '*.rs'], [('Result-returning readers', SP + '*.rs')])
P('C09', 'Every parse error names the element where it occurred',
  'An error returned by the reader of an element carries the position of an XML node: that of the element being read (whose content is malformed, lacks a mandatory child or fails validation), or of the offending child; an error of a nested reader is passed on with the position it had.',
  IN, 'every malformed document', 'tests look at few error locations', [SP + '*.rs'], [('error location wrapper', SP + 'errors.rs')])
P('C10', 'Validation levels are ordered and passed down unchanged',
  'With validation disabled no element is rejected by a validation rule; every element accepted at the strict level is accepted at the weak level and every one accepted at the weak level is accepted with validation disabled. The level chosen by the caller is the one applied to every nested element.',
  INC, 'every element and every level', 'needs all elements at all levels', MODS + PARS, [('level predicates', SR + 'lib.rs'), ('level arguments', SP + '*.rs')])
P('C11', 'Validation accepts exactly the documented well-formedness rules',
  'Validating an element at a level accepts it exactly when the rules of its kind hold. Weak and strict: a device has peripherals; a reset value fits the register size; a field is at least one bit wide and, if narrower than 64 bits, its enumerated values and the bounds of its range write-constraint fit its width, minimum not above maximum; enumerated values that are not derived are not empty, each having a value or being the default. Strict only: names and derivation paths follow the name grammar; a non-derived cluster has children and a non-derived peripheral or register has no empty list of registers or fields; the reset mask fits the size and covers the reset value; no value is both given and default; a field has at most two sets of enumerated values, and if two, one for reading and one for writing.',
  IN, 'every element value and level', 'tests probe a few invalid elements', MODS, [('validate functions', SR + '*.rs')])
P('C12', 'Names are accepted exactly when they follow the name grammar',
  'At the strict level, names of enumerated values and alternate groups are accepted exactly when they consist of ASCII letters, digits and underscores; names of peripherals, clusters, registers and fields and alternate registers exactly when they are such texts not starting with a digit and not empty, with at most one %s placeholder (also alone or in front) or a final [%s]; a derivation path exactly when its dot-separated parts are such names, a single one for a peripheral. Names do not matter at the other levels.',
  IN, 'every text', 'the language of names is infinite', [SR + 'lib.rs'], [('name patterns', SR + 'lib.rs')])
P('C13', 'Builders set exactly what they are given and reject incomplete elements',
  'Building an element at some level succeeds exactly when every mandatory property was given and the assembled element passes validation at that level. Each property of the result is the value last given for it (an empty optional text counts as absent), a property not given has its documented default, and setting one property never changes another. A builder made from an existing element holds exactly its properties.',
  HI, 'every sequence of setter calls with any arguments, every level', 'sequences of setters with all values cannot be enumerated by tests', MODS, [('builders', SR + '*.rs')])
P('C14', 'In-place modification changes the given properties and nothing else',
  'Applying a set of changes to an existing element overwrites exactly the properties that were given (an empty text or list given for an optional property clears it), keeps all others, and succeeds exactly when the modified element validates at the requested level. When the changes set a derivation path, properties the element would otherwise inherit are reset unless given.',
  HI, 'every element, every set of changes, every level', 'tests modify one or two properties', MODS, [('modify_from', SR + '*.rs')])
P('C15', 'Deriving an element fills only what the element leaves unspecified',
  'Deriving an element from another keeps every property the element specifies itself and takes every inheritable unspecified property from the other; its identity (name, address offset, derivation path) is never taken from the other, and both inputs are left unchanged.',
  IN, 'every pair of elements', 'each property needs both sides given and absent', [SR + 'derive_from.rs'], [('DeriveFrom implementations', SR + 'derive_from.rs')])
P('C16', 'Expanding an array yields one element per index at the right address',
  'Expanding an array element that gives no addresses beyond the number range yields exactly dim single elements, one per index in order, the i-th at address (or bit) offset base + i*increment, with the i-th index text substituted for [%s] and %s in its name, its description and, for peripherals and registers, its display name, and everything else (the width of a field included) unchanged. Where the array names its elements (dimArrayIndex), an element whose index text is the number of a named value takes that value\'s name, and its description where it has one. The name, description and offset lists of an array are those of its elements.',
  IN, 'every array, any dim', 'dim is unbounded', [SR + x for x in ('array.rs', 'dimelement.rs', 'peripheral.rs', 'cluster.rs', 'register.rs', 'field.rs')], [('expand/names', SR + '*.rs')])
P('C17', 'Array index lists are read, generated and written consistently',
  'Without an explicit index list the indices of an array are the decimal texts of 0..dim-1, with one they are its texts, each visited once in order. In an index text, n-m stands for the numbers n to m, A-C (or a-c) for the letters in between and any other text without a dash for its comma-separated parts; a text with a dash that is neither, or an empty range, is an error, and so is an explicit list of an arrayed element whose length is not dim. An index list that consists of the decimal texts of consecutive increasing numbers is written as the range of them, any other with commas.',
  IN, 'every dim and index text', 'index texts are unbounded', [SR + 'dimelement.rs', SP + 'dimelement.rs', SE + 'dimelement.rs'], [('dim index reader/writer', SP + 'dimelement.rs')])
P('C18', 'Derivation paths resolve to the intended element',
  'Every element is registered under the path of names that leads to it (peripheral, clusters, register, field, enumerated values), arrays also under the names of their elements. A derivation path is resolved from the scope of the element carrying it: a plain name means that scope, REGISTER.FIELD, FIELD.VALUES and REGISTER.FIELD.VALUES the enclosing block, anything longer the full path from the peripheral, a peripheral is meant by its name alone, and a plain name of enumerated values means those of the first field of the same register having some of that name. The element is derived from the one registered under that path and on from what that one is derived from, and what is taken over is resolved in the scope it was taken from; an unknown path and a derivation that comes back to itself are errors.',
  IN, 'every device and path', 'paths combine with nesting', [SP + 'expand.rs'], [('path index and derive functions', SP + 'expand.rs')])
P('C19', 'Expanding a device leaves no arrays and no derivations',
  'The expansion of a device holds only single peripherals, each with only single registers and single fields, and no derivation is left: every derived element is replaced by the result of its derivation, every array in place by its elements, every cluster in place by its registers, named CLUSTER_REGISTER and offset by the address of the cluster, all in the order of the original; every other property of the device, of its peripherals, registers and fields is unchanged. It fails exactly when a derivation does.',
  IN, 'every device', 'nesting and sizes unbounded', [SP + 'expand.rs'], [('expand functions', SP + 'expand.rs')])
P('C20', 'Register properties are inherited from the nearest enclosing element',
  'After property expansion, size, access, protection, reset value and reset mask of every register without a derivation of its own are its own values if given, otherwise, property by property, those of the nearest enclosing cluster, peripheral or device that gives them. Peripherals, clusters and registers with a derivation are left as they are with all they contain, and nothing else of the device changes.',
  IN, 'every device, any nesting depth', 'nesting depth unbounded', [SP + 'expand.rs', SR + 'registerproperties.rs', SR + 'derive_from.rs'], [('expand_properties', SP + 'expand.rs')])
P('C21', 'Iterators visit every register and cluster exactly once, in order',
  'Iterating the registers or the clusters of a peripheral or cluster visits exactly the direct children of that kind in order; iterating all registers visits every register at any depth exactly once in depth-first document order; the mutable forms visit the same elements.',
  IN, 'every tree of clusters and registers', 'tree shapes are unbounded', [SR + x for x in ('registercluster.rs', 'peripheral.rs', 'cluster.rs')], [('iterator next functions', SR + 'registercluster.rs')])
P('C22', 'Lookups by name return the first element with that name',
  'Looking up a peripheral, interrupt, cluster, register, field or enumerated value by name returns the first child of that kind whose name equals the given one and nothing when there is none; the mutable forms select the same element.',
  IN, 'every parent and name', 'all names and child lists', [SR + x for x in ('device.rs', 'peripheral.rs', 'cluster.rs', 'register.rs', 'field.rs')], [('get_* functions', SR + '*.rs')])
P('C23', 'Encoding writes every present property under its tag, in schema order',
  'The XML element written for a device, CPU, peripheral, cluster, register, field, enumerated values, dimension, interrupt, address block or write constraint has the tag of its kind and one child (or attribute) per present property, named and ordered as in the CMSIS-SVD schema, with the property\'s value as text, and nothing for absent optional properties; repeated children are all written; an arrayed element holds its dimension children before its own. The text of a device is the escaped serialization of that element.',
  INC, 'every element value and encoder configuration', 'tests write a handful of elements', ENCS, [('Encode implementations', SE + '*.rs')])
P('C24', 'Encoder configuration reaches every part of the output',
  'Every name, number, bit range and sorted list is written as its own documented option says, and every nested element is written with the same configuration, the default one where none is given. The default configuration has the documented value for every option; a setter, or an update by option name with a valid text, changes exactly the named option to the given value.',
  ['configurations', 'inputs'], 'every configuration and nesting', 'options times element kinds', [SE + 'config.rs'] + ENCS, [('Config', SE + 'config.rs')])
P('C25', 'Sorting on output permutes siblings as configured and loses none',
  'The peripherals of a device, the registers and clusters of a peripheral and the fields of a register are written in the order of the configured option: as given, or sorted stably by name or by address (bit) offset ascending or descending, with derived ones last or registers or clusters first where the option says so; none is lost, duplicated or changed.',
  INC, 'every list of siblings and every sorting option', 'lists unbounded', [SE + 'config.rs', SE + 'peripheral.rs', SE + 'device.rs', SE + 'register.rs', SE + 'field.rs'], [('sort functions', SE + 'config.rs')])
P('C26', 'Numbers and identifiers are written in the configured format',
  'Every number is written in the format configured for its kind (decimal, upper or lower case hexadecimal plain or padded to 8 or 16 digits, binary) so that its text denotes the number, and in decimal where no format can be configured; every identifier is written with the case configured for its kind, keeping its %s placeholder, and unchanged where no case is configured.',
  INC, 'every number and format', 'unbounded numbers', [SE + 'config.rs', SE + 'lib.rs'], [('number format', SE + 'config.rs')])
P('C27', 'Every tag the writer produces is one the parser reads for that property',
  'Each child element or attribute that the writer of an element kind produces for a property is one that the reader of that element kind reads into the same property and no other, and an element is written under a name its reader accepts, so no written property is lost or ends up elsewhere when the output is parsed again.',
  IN, 'every element kind and property', 'round-trip tests cover few properties', PARS + ENCS, [('tags', SP + '*.rs')])
P('C28', 'Serialized descriptions read back as the same description',
  'With the serde feature, every data type is both serialized and deserialized, and what a self-describing format holds for a value reads back as that value: each property and each enumeration variant is written under a name it is read from, distinct properties sharing a map have distinct names, a property that may be left out reads as the value it was left out for, and untagged alternatives are told apart. A single or arrayed element reads back as the same form with the same dimension, a bit range (of at least one bit, last bit below 2^32) in the notation it was given in with the same bits, and array indices (without commas and hyphens) as the same list. Whatever data is given, reading it ends in a value or an error, never in a panic. Only the three schema attributes of a device (xmlns_xs, no_namespace_schema_location, schema_version) are not part of the serialized form.',
  IN, 'every data type, property and value', 'round trips per property and combination of forms', MODS, [('serde attributes and hand-written implementations', SR + '*.rs')],
  tech='rule check of the serde derive attributes in the type-checked program; MIR value-flow analysis of the hand-written implementations')
P('C29', 'Parser options change only what they name',
  'Each parser option setter changes only its own option, and the defaults are weak validation with nothing ignored or expanded. Every nested element is read under the same options. ignore_enums makes the enumerated values and the write constraint of fields absent and changes nothing else that is read; the expansion options do not influence reading: properties and arrays and derivations are expanded exactly when requested.',
  ['configurations', 'inputs'], 'every configuration', 'combinations of options', [SP + 'lib.rs', SP + 'config.rs'], [('Config', SP + 'lib.rs')])
P('C30', 'Reading and writing descriptions has no side effects',
  'Parsing, encoding, building and manipulating descriptions use the arguments alone: no file, network, terminal, environment, clock, randomness, thread or mutable global state is read or changed, so that results do not depend on earlier calls, on addresses or on the order of a hash table. Only setting an unknown encoder option by name (Config::update) and the debug helper of the parser print a message.',
  IN, 'every call', 'absence of effects cannot be tested', [SP + '*.rs', SE + '*.rs', SR + '*.rs'], [('whole crates', '')])
P('C31', 'A byte-order mark is ignored and processing steps run in order',
  'One leading UTF-8 byte-order mark before the XML text changes nothing about the result, and no other character is dropped; inherited properties are filled in on the device as read, and arrays and derivations are expanded on the result of that, when both are requested. A failing requested expansion fails the parse.',
  INC, 'every input and configuration', 'few inputs with BOM tested', [SP + 'lib.rs'], [('parse_with_config', SP + 'lib.rs')])
P('C32', 'Full validation checks every nested element',
  'Validating a whole element checks it and every nested element at any depth at the same level and reports an error if any fails.',
  IN, 'every tree', 'trees unbounded', MODS, [('validate_all', SR + '*.rs')])
P('C33', 'Single and arrayed elements agree on everything but the array',
  'Reading and writing through an element that may be single or arrayed acts on the same underlying element in both cases, its name and description are those of that element, it tells correctly whether it is single or arrayed, and making a single or arrayed element (or a member of a register list) keeps the element and the dimension unchanged. Name, description, derivation path and address offset of a member of a register list are those of the register or cluster.',
  IN, 'every element', 'all element kinds in both forms', [SR + 'array.rs', SR + 'derive_from.rs'], [('MaybeArray', SR + 'array.rs')])
P('C34', 'Expansion terminates on every description',
  'Expanding a device (expand), filling in properties (expand_properties), indexing a device and deriving any element from a path terminate for every finite device, including ones whose derivations form a cycle or whose clusters derive from an enclosing cluster: every recursive step hands on smaller data or goes through an indexed element that was not gone through before, coming back to one is an error, and every loop runs over a finite sequence.',
  IN, 'every device', 'termination is a liveness property over all graphs', [SP + 'expand.rs'], [('derive functions', SP + 'expand.rs')])
P('C35', 'Bit-range constructors and accessors agree',
  'For every bit range of at least one bit whose last bit is representable, made from offset and width, from msb and lsb or from its text, lsb = offset, msb = offset + width - 1 and the text is [msb:lsb], also through a field; each constructor records its notation. A text is accepted exactly when it is [msb:lsb] with two decimal numbers, msb not below lsb and a representable width. None of these panics.',
  IN, 'every pair of bounds', 'numbers', [SR + 'bitrange.rs'], [('BitRange', SR + 'bitrange.rs')])
P('C36', 'Access, usage, default and mask queries are exact',
  'Reading and writing are allowed exactly by the access kinds that name them; enumerated values that are not derived serve their given usage, by default read-write, and a field with one or two sets of enumerated values returns the first set serving the asked usage; the default value is the first one marked so; a CPU is a Cortex-M exactly when its name starts with CM. The mask of a field lying within 64 bits has exactly its bits set, that of an arrayed field or a register the bits of all its elements or fields. The defaults of the keyword types are the ones of the format: read-write access and usage, little endian, registers for address blocks, non-secure protection, and the actions that modify.',
  IN, 'every access, usage and field', 'tables', [SR + 'access.rs', SR + 'usage.rs', SR + 'field.rs'], [('predicates', SR + '*.rs')])

P('C37', 'The error of a rejected document says what is wrong, and where',
  'Whenever reading rejects an element, the error returned is a true statement about the element it points to: a missing or empty tag is really missing or empty and is the one named, an unexpected tag or an unknown word is the one found there, a text called invalid really does not read, a count of index names is the required one and the one found, the placeholder complaint carries the name without placeholder, the kind of bit range error is the one that applies. An error of building names a property that was not given; an error of validation names a rule the element breaks and carries the values that break it. The displayed text of these errors contains the values they carry, in that order (required before found, minimum before maximum) and the text of the error they wrap. The report of parse_with_config keeps the cause, gives the position, tag and name of the element, and names every enclosing device, peripheral, register, field, enumeratedValue and interrupt from the inside out.',
  IN, 'every rejected document, element and value', 'tests compare a few error texts; which error is returned on which path is a case distinction over all inputs', [SP + '*.rs', SR + '*.rs'], [('error type', SP + 'lib.rs'), ('rule errors', SR + 'error.rs')])

P('C38', 'Writing, handling and expanding a description never panics',
  'For every description whose bit ranges have at least one bit, whose arrays have at least one element and as many index names as elements, and whose positions (addresses and bits of all elements) are representable, encoding it under every configuration, every public operation of the data model (building, modifying, validating, expanding arrays, iterating, querying; masks for fields within 64 bits), filling in properties, indexing, deriving and expanding end in a value or an error: no arithmetic overflow, out-of-range slice or index, unwrap of nothing, failing assertion or explicit panic is reachable, whatever names, index names, references and properties it has. Likewise for setting an encoder option from its text. Excepted is only what is documented to panic: an unknown value given to Config::update, and parsing a path text that lacks its enclosing parts.',
  IN, 'every description and configuration', 'panics hide in rare combinations of properties; the absence on all paths is not testable', [SE + '*.rs', SR + '*.rs', SP + 'expand.rs'], [('writers', SE + '*.rs'), ('data model', SR + '*.rs'), ('expansion', SP + 'expand.rs')])

P('C39', 'A description is a plain value',
  'Everything public can be sent to and shared between threads, nothing in it changes behind a shared reference, and a description owns all it consists of. Two descriptions (and any two elements) are equal exactly when they are the same alternative with pairwise equal properties, none left out, and a copy of an element is equal to it. Outside the data-model crate an element that has a checking builder, and the builder itself, cannot be written as a literal, so that what the builder checks cannot be by-passed on construction.',
  IN, 'every value of every public type, and every program using them', 'auto traits, equality over all pairs of values and what other crates may write are facts of the types, which no test run observes', [SR + '*.rs', SP + '*.rs', SE + '*.rs'], [('data types', SR + '*.rs'), ('options and errors', SP + '*.rs, ' + SE + '*.rs')],
  tech='type-level facts (auto traits, implementation table, visibility and attributes) read from the type-checked program; MIR value-flow analysis of hand-written implementations')

P('C40', 'Reading, writing, validating and iterating always end',
  'Every call of a reader, a writer, a validation or an iterator ends, for every finite document and description: where these functions call each other in a cycle (elements nested in elements) each round works on a proper part of what the one before worked on, every loop takes the next element of a finite sequence, or an element of a pending list to which it adds nothing but parts of that element, an iterator starts over only after it used up an element, and nothing is collected or counted from an endless sequence. (Expansion, whose recursion follows references, is the subject of a property of its own.)',
  IN, 'every finite document, description and configuration', 'a test that does not end tells nothing about the inputs it was not given; termination for all inputs needs a measure', [SP + '*.rs', SE + '*.rs', SR + '*.rs'], [('readers', SP + 'cluster.rs'), ('writers', SE + 'cluster.rs'), ('validation and iterators', SR + 'cluster.rs, ' + SR + 'registercluster.rs')],
  tech='call-graph cycles of the MIR with structural measures, loop analysis over the control-flow graph')

# claimed checks: technique and level note default to these
TECH = 'MIR value-flow analysis against declarative rules'
NOTE = ('Source-only decision on every run: the type-checked MIR of the current tree is abstracted to a guarded value-flow normal form per function and compared, '
        'for all inputs, with a declarative rule; a difference is reported with function and condition. Trusts the models of library functions; '
        'a function whose form the analysis cannot interpret is listed as undecided in the evidence instead of being reported.')
def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            an = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['state']: an['state'] = p['state']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']),
                                    why_tests_cant=p['why'], anchors=an)) + '\n')
    checks = []; na = []
    for p in PROPS:
        if p['id'] in registry.CHECKS and not p['na']:
            cmd = 'python3 check.py ' + p['id']
            checks.append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd=cmd, technique=p['tech'] or TECH, level='other', level_note=p['note'] or NOTE))
        else: na.append(dict(property=p['id'], reason=p['na'] or 'no check has been built for it yet'))
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'not')
if __name__ == '__main__': main()
