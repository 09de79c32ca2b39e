#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (a development tool)."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
J = 'crates/joker/src/'
P = []

def p(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe))

LEXNOTE = ("Held on the generated and enumerated inputs of this run, by comparison with an independent reference lexer "
           "written from the ECMAScript grammar; trusts that reference, rustc and the standard library. ")

p('C01', 'Tokenizing any text is total',
  'Tokenizing any sequence of characters, with any choice of lexing mode per token, reaches the end-of-input token or a lexical error after finitely many tokens. '
  'It never panics, overflows, hangs or crashes the process. Every token before the end covers at least one further character of the input, in input order.',
  ['inputs'], 'every character sequence and every sequence of operator/regexp modes',
  'The one test reads a hundred-odd short literals; hostile and truncated texts, very long literals and mixed modes are never tried.',
  [J+'lexer.rs', J+'reader.rs', J+'token.rs'],
  [('Lexer::read_next_token and the literal readers', J+'lexer.rs'), ('Reader::peek look-ahead', J+'reader.rs')],
  'runtime monitoring: panic, abort, CPU and progress monitors (overflow checks and debug assertions on) over hostile and enumerated texts',
  'Exploration: every string of up to 3 characters over a 25-character hostile alphabet in both modes, plus random soup. A hang is decided by CPU time used on one small input.')
p('C02', 'Texts are cut into the tokens of the ECMAScript lexical grammar',
  'A text is divided into exactly the tokens the ECMAScript lexical grammar defines: the longest possible punctuator, reserved words, identifiers, numbers, strings and regular expressions, in order. '
  'White space, line terminators, line and block comments and the HTML-like comments <!-- and --> (the latter only where nothing but white space and comments precedes it on its line) separate tokens and are otherwise skipped. '
  'Well-formed tokens are never rejected.',
  ['inputs'], 'every text whose tokens are well-formed, in both lexing modes',
  'Unit tests lex single tokens with a blank or semicolon next to them; adjacency of tokens and the combinations of trivia are unbounded.',
  [J+'lexer.rs', J+'char.rs'],
  [('dispatch on two characters of look-ahead, read_punc*', J+'lexer.rs'), ('skip_whitespace, skip_line_comment, skip_block_comment, empty_line', J+'lexer.rs')],
  'runtime monitoring: online comparison of the token trace with a reference lexer', LEXNOTE)
p('C03', 'Numeric literals denote the correctly rounded double and keep their source',
  'A numeric literal of any form (decimal integer, fraction, exponent; hexadecimal, octal, binary; legacy octal and 08/09-style decimals) yields the IEEE double nearest to its mathematical value, ties to even, overflowing to infinity and underflowing to zero. '
  'The recorded source parts stand for exactly the text of the literal, and evaluating them again gives the same value. '
  'A malformed literal, or one directly followed by an identifier character or digit, is an error.',
  ['inputs'], 'every numeric literal of any length',
  'The tests hold a few dozen short literals; rounding, overflow and source reconstruction depend on arbitrarily long digit strings.',
  [J+'lexer.rs', J+'token.rs'], [('read_number, read_radix_int, read_exp_part', J+'lexer.rs'), ('NumberSource::value, radix_int_value', J+'token.rs')],
  'runtime monitoring: value and source of every number token checked against exact reference arithmetic', LEXNOTE)
p('C04', 'String literals denote the right value and keep their source',
  "A string literal's value is the one ECMAScript defines for its characters and escapes (single-character, hexadecimal, legacy octal, \\u and \\u{} escapes, surrogate pairs written as two escapes, line continuations with every line terminator). "
  'Its recorded source is exactly its text including the quotes. A malformed escape, an escape beyond U+10FFFF or an unterminated string is an error.',
  ['inputs'], 'every string literal', 'Escapes combine freely and range over all code points; the tests sample about thirty.',
  [J+'lexer.rs'], [('read_string, read_string_escape, read_unicode_escape_seq', J+'lexer.rs')],
  'runtime monitoring: value and source of every string token checked against a UTF-16 reference decoder', LEXNOTE + 'A lone surrogate may be represented by any one character.')
p('C05', 'Regular expressions and division are told apart and read verbatim',
  'Where an operand is expected, / starts a regular expression that ends at the first / outside a character class and not preceded by a backslash; its pattern is the text in between, verbatim, and its flags are the identifier characters that follow, in order. '
  'Where an operator is expected, / and /= are division operators. A regular expression cut off by a line terminator (also inside a class or after a backslash) or the end of input is an error.',
  ['inputs'], 'every text beginning with / in each lexing mode', 'Nesting of classes, escapes and line terminators is unbounded; the tests hold a handful.',
  [J+'lexer.rs'], [('read_regexp, read_regexp_class, read_regexp_backslash', J+'lexer.rs')],
  'runtime monitoring: online comparison with a reference lexer, short texts enumerated', LEXNOTE + 'Escapes inside flags are not judged.')
p('C06', 'Words: identifiers, reserved and contextual words, escapes, Unicode',
  'A word consists of an identifier start character followed by identifier characters as Unicode and ECMAScript define them, each written directly or as a \\u escape that denotes such a character. '
  'Unescaped reserved words are recognised exactly, a reserved word written with escapes is an error, and every other word is an identifier with the decoded text, the contextual keywords being recognised when unescaped. '
  'Names convert to and from text without loss.',
  ['inputs'], 'every code point in every position, every word', 'There are 1.1 million code points and unboundedly many words; the tests use a few ASCII ones.',
  [J+'lexer.rs', J+'char.rs', J+'word.rs'], [('read_word, read_word_parts, read_word_escape', J+'lexer.rs'), ('Map::tokenize, Name::from', J+'word.rs'), ('is_es_identifier_start/continue', J+'char.rs')],
  'runtime monitoring: every code point enumerated, words generated, compared with a reference lexer', LEXNOTE + 'Code points whose status differs between Unicode versions are not judged.')
p('C07', 'Token locations are the exact offsets, lines and columns',
  "Every token's start and end are the offset in characters, the line and the column (from 0) of its first character and of the position just after its last character, where LF, CR, CR LF, U+2028 and U+2029 each end one line. "
  "The lexer's current position is the end of the last token read, or the start of the next token if that is already buffered.",
  ['inputs'], 'every text, every token in it', 'The tests compare token values only, never locations.',
  [J+'reader.rs', J+'lexer.rs', J+'track.rs'], [('Reader::next position tracking', J+'reader.rs'), ('SpanTracker, Lexer::posn', J+'lexer.rs')],
  'runtime monitoring: every observed location checked against a line table of the text', LEXNOTE)
p('C08', 'Tokens know whether a line terminator precedes them',
  'A token is marked as preceded by a newline exactly if the text between it and the previous token (or the start of the text) contains a line terminator outside of tokens: between tokens, ending a line comment, or inside a block comment. '
  'Reading ahead does not change the mark.',
  ['inputs'], 'every text, every kind and combination of trivia', 'The tests never look at the mark, on which automatic semicolon insertion rests.',
  [J+'lexer.rs'], [('found_newline in read_next_token, skip_block_comment', J+'lexer.rs')],
  'runtime monitoring: the mark of every token checked against the text between the tokens', LEXNOTE)
p('C09', 'Looking ahead in the token stream is transparent',
  'Whatever sequence of peeking, re-peeking, reading, re-reading, skipping and putting back (at most two tokens) is performed, the tokens delivered are those of plain sequential reading, in the same order, with the same locations and marks. '
  'An error is reported at the same point of the stream as in sequential reading.',
  ['histories'], 'every sequence of operations on the token stream of every text', 'The tests only read sequentially.',
  [J+'lexer.rs'], [('peek_token, repeek_token, read_token, reread_token, skip_token, unread_token over the lookahead queue', J+'lexer.rs')],
  'runtime monitoring: recorded operation histories checked against a sequential specification',
  'Exploration of random operation histories; at most two tokens are put back at a time.', state=[('lookahead', 'buffered tokens', J+'lexer.rs')])
p('C10', 'Tokenizing is incremental with bounded look-ahead',
  'Delivering a token consumes at most four characters beyond its end from the character source, so a token does not depend on what follows after that. '
  'The source is asked for characters a number of times linear in the length of the text, and once the end of input was delivered every further read delivers it again at the same place.',
  ['inputs', 'histories'], 'every text, every point in the stream', 'The tests hand the lexer complete strings and never observe what it consumes.',
  [J+'reader.rs', J+'lexer.rs'], [('Reader::peek and its look-ahead buffer of four', J+'reader.rs')],
  'runtime monitoring: a counting character source watches consumption; prefix runs compared with whole runs',
  'Exploration through an instrumented character iterator; the bound of four is the documented capacity of the look-ahead buffer.')
p('C11', 'Lexical errors are reported, at the right place and with the right cause',
  'The first malformed token of a text is always reported as an error of the class that fits it (unterminated comment, string or regexp, missing digits or exponent, invalid digit, illegal character or code point, text directly after a number, incomplete escape, escaped reserved word), after all tokens before it were delivered. '
  'The error names the offending character, code point or word (or that the input ended), and so does its message for illegal characters, invalid digits, illegal code points and escaped reserved words.',
  ['inputs'], 'every malformed text', 'Tests check for some malformed literals that any error occurs, not which one.',
  [J+'lexer.rs', J+'error.rs', J+'word.rs'], [('Error construction in the readers', J+'lexer.rs'), ('Display for Error', J+'error.rs')],
  'runtime monitoring: class and payload of every observed error compared with a reference lexer', LEXNOTE)

U = 'crates/unjson/src/'
p('C12', 'Typed JSON accessors return exactly the value or the right type error',
  'Asking a JSON value, or a field of an object, for a string, array, object, boolean, integer, float or number yields exactly that value if it has the type, and otherwise a type mismatch that names the expected type and the actual JSON type. '
  'Nullable accessors additionally yield nothing for null, and only for null. Numbers are delivered without changing their numeric value.',
  ['inputs'], 'every JSON value, every accessor', 'unjson has no tests at all.',
  [U+'unjson.rs', U+'ty.rs', U+'error.rs'], [('Unjson, GetField, ExtractField', U+'unjson.rs'), ('TyOf', U+'ty.rs')],
  'runtime monitoring: the answer of every accessor judged by a reference oracle over random JSON values',
  'Exploration of random JSON values; conversions between integer representations of the same number are allowed.')
p('C13', 'Extracting fields conserves the object',
  'Extracting a field hands out its value and removes that field alone; getting a field changes nothing; every other field keeps its value through any history of accesses. '
  'A field that is absent is reported as missing, by name, and leaves the object unchanged. Error messages contain the names, types, lengths and indices they report.',
  ['histories', 'inputs'], 'every history of accesses to every object', 'unjson has no tests at all.',
  [U+'unjson.rs', U+'error.rs'], [('extract_field, get_field', U+'unjson.rs'), ('Display for Error', U+'error.rs')],
  'runtime monitoring: histories of accesses checked against a map (conservation)',
  'Exploration of random access histories; whether a field of the wrong type is removed by a failed extraction is not judged.')

exec(open(os.path.join(root, 'tools', 'parserprops.py')).read())

built = set(x['id'] for x in P) - set(UNBUILT)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for x in P:
        anchors = dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']])
        if x['state']:
            anchors['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in x['state']]
        if x['observe']:
            anchors['observe_at'] = list(x['observe'])
        anchors['hook_needed'] = None
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'],
                                quantifier=dict(over=x['over'], text=x['text']),
                                why_tests_cant=x['why'], anchors=anchors), ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh', checks=[
    dict(property=x['id'], quick_cmd='bash check.sh ' + x['id'],
         thorough_cmd='VERIF_TIER=thorough bash check.sh ' + x['id'],
         evidence_file='evidence/%s.json' % x['id'], technique=x['technique'], level='exploration', level_note=x['note'])
    for x in P if x['id'] in built],
    not_applicable=[dict(property=i, reason='no check built yet') for i in sorted(UNBUILT)])
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(os.path.join(root, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), ps)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(P), 'properties,', len(built), 'claimed')
