RT = 'src/yapps3_compiled_rt.py'
MINI = 'abstract interpretation of the source over symbolic operands (zones of positions)'

prop('C05', 'Tokens follow the longest-match rule and no token is lost or invented',
     'When text is read with the Python tokeniser, the next token is always the longest text that any admissible token kind '
     'matches at the current position (the kind listed first when several match equally far); ignored tokens are skipped '
     'and reading continues just behind; the token reported has exactly that extent and text; when nothing matches a '
     'YappsSyntaxError is raised and past the end NoMoreTokens; a token already read is returned again unchanged, or '
     'refused when it is asked for among kinds that were not admissible when it was read. The parser moves on only over a '
     'token of the kind it asked for, and reports any other one; with the compiled tokeniser each token comes from it by '
     'number, and only its end of input is turned into NoMoreTokens. Reporting a syntax error does not itself fail.',
     ['inputs'], 'all inputs, all sets of token patterns, all sequences of requests',
     'The tests read a few hundred texts with the shipped patterns; ties, empty matches, restricted requests and requests '
     'repeated with other kinds come up only in particular texts and token sets.',
     [RT], [('tokeniser', 'Scanner.interp_scan, interp_token, compiled_token in ' + RT),
            ('parser base', 'Parser._peek, Parser._scan, wrap_error_reporter, print_error in ' + RT)],
     MINI, 'Patterns are symbols of which only the order of the ends of their matches is known; every order is explored for '
     'token sets of up to three kinds and two or three requests, with and without ignored kinds, against a written rule. '
     'Assumes ignored kinds do not match the empty text. The layout of the lines shown with an error is not decided.')

LEXF, YACCF = 'src/drel/drel_lex.py', 'src/drel/drel_ast_yacc.py'
prop('C06', 'dREL text is cut into the tokens of the dREL definition',
     'For every dREL text the dREL lexer reports exactly the tokens of the language: operators, numbers (decimal, binary, '
     'octal, hexadecimal, real, imaginary), short and triple-quoted strings that end at the first unescaped closing quote, '
     'string prefixes, identifiers, item tags, reserved words in their recognised spellings only ("else if" as one word), '
     'newlines outside parentheses; blanks, comments and continued lines are passed over, newlines count again exactly when '
     'the last open parenthesis is closed. The value of a token is its text (or, for a number in another base, the same '
     'number in decimal). A character that starts no token is an error, after which the lexer is ready for another text.',
     ['inputs'], 'all texts, all nestings of parentheses',
     'The tests lex some dozens of methods; which of two rules wins, and where a token ends, depends on the text behind it.',
     [LEXF], [('lexer', 't_ rules, reserved, states, literals in ' + LEXF)],
     'language inclusion of regular expressions (exact automata) and abstract interpretation of token functions',
     'The rules are combined as PLY documents it and compared, state by state and for every text, with a written reference '
     'lexer; token functions are interpreted over a symbolic text, or over members of their language when they convert it. '
     'Line numbers (used in messages only) are not decided.')
prop('C07', 'dREL text is accepted exactly when valid, and the tree says what the text says',
     'The dREL parser accepts a sequence of tokens if and only if it is a dREL text (with the documented extensions), and the '
     'tree it builds follows the precedence and associativity of the operators and holds every operand, branch, '
     'subscript, slice, list element, table entry, loop variable and statement exactly once, in order and in its place; '
     'parts that are left out get the documented defaults. A syntax error ends the parse with an exception, whatever the '
     'token, and leaves the lexer ready for the next text.',
     ['inputs', 'histories'], 'all sequences of tokens',
     'The tests parse some dozens of methods; the tree of an unusual combination (second branch, third entry, left out '
     'start of a slice, a sign in an exponent) is built by code that no test runs.',
     [YACCF], [('grammar', 'p_ functions and their grammar rules in ' + YACCF)],
     'LALR(1) automaton of the source grammar walked side by side with a reference grammar; abstract interpretation of actions',
     'All configurations up to the three topmost states of both automata are compared; the trees are compared over symbolic '
     'tokens for every production in every place of every production in every place (one level deeper in the thorough tier), '
     'all pairs and many triples of operators and lists of up to nine elements.')

CSRC, CHDR, CLEX = 'src/lib/py_star_scan.c', 'src/lib/star_scanner.h', 'src/lib/lex.yy.c'
CINT = 'abstract interpretation of clang\'s syntax tree over checked memory and a model of the Python C API'
prop('C08', 'The compiled tokeniser keeps to its protocol and to its memory',
     'For every sequence of calls of the compiled tokeniser (prepare, scan, token, last_ten, cleanup, in any order, also '
     'before a text is given): token(i) returns line number, 0, kind and text of the i-th token of the current text, reading '
     'one more token exactly when i is the next one, and raises IndexError for any other number; last_ten returns the last '
     'ten tokens read (fewer if there are fewer); prepare starts the whole new text from its beginning, or raises; results '
     'and exceptions are exclusive. No call reads or writes outside memory it holds, uses memory or objects after they '
     'were given back, frees twice, or leaks a reference or a block.',
     ['histories', 'inputs'], 'all sequences of calls and all numbers of tokens',
     'The tests read files once from front to back; repeated and out-of-range requests, the growth of the lists in long '
     'files, errors in the first tokens, and leaked or stolen references are not visible in their results.',
     [CSRC, CHDR, CLEX], [('method table', 'StarScanMethods in ' + CSRC), ('storage', 'get_input, flex_scan, clear_mem in ' + CSRC)],
     CINT, 'All histories of up to three calls from nine (four in the thorough tier), longer ones around the tenth token and '
     'around both ends of the storage blocks; any decoding may fail once. Assumes that malloc succeeds. The scanner itself '
     'is represented by a stub that returns numbered tokens (its rules are C09).')
prop('C09', 'The compiled tokeniser cuts every text into the tokens of CIF 1.1',
     'For every text the compiled tokeniser reports exactly the tokens of the CIF 1.1 (STAR) rules, whatever the letter case of '
     'reserved words: loop_, global_, stop_, save_ and data_ headings, data names, unquoted values, values in single or double '
     'quotes (up to the first closing quote with a blank or tab behind it, else the last quote of the line), and text fields '
     'line by line up to the first line that starts with a semicolon; the longest token wins and reserved words win over '
     'values; blanks, comments and line ends are passed over unless the line end starts a text field; every token comes with '
     'the number of line ends read so far; a character that can start no token gives an error, never output or loss; the end '
     'gives END. This does not depend on the length of the text or of a token, on where the internal buffer ends, or on '
     'where an earlier text was left.',
     ['inputs', 'histories'], 'all texts without NUL, all lengths, all sequences of texts',
     'The tests read some files in which each kind of token appears in usual surroundings; quotes followed by tabs, reserved '
     'words in capitals, tokens across the buffer end, errors inside text fields and texts read after such errors do not occur.',
     [CLEX, CSRC, CHDR], [('tables', 'yy_accept, yy_ec, yy_base, yy_def, yy_nxt, yy_chk, yy_meta in ' + CLEX),
                          ('driver', 'star_scanner, yy_get_next_buffer, YY_INPUT, star_clear in ' + CLEX)],
     'equivalence of the decoded tables with an automaton of written rules (exact), and ' + CINT,
     'The tables are compared for all texts. The driver is interpreted for all texts of up to two (three in the thorough tier) '
     'pieces from 22, all short quoted bodies, and longer texts at every position of buffers of 4, 5, 16 and 16384 bytes, and '
     'for texts given up at every token. A lone carriage return as the last byte is an error, as in the written rules.')

TREEF, YG, YY = 'src/yapps3/parsetree.py', 'src/yapps3/grammar.py', 'src/yapps3/yapps2.py'
prop('C10', 'A generated parser does what its grammar says',
     'For every grammar in which no token can start two clauses of a choice, both a repetition (or option) and what follows it, or an '
     'empty repetition body, the module that the parser generator (yapps) writes accepts exactly the token sequences of each '
     'rule, with both kinds of scanner; it runs the actions of the grammar in the order of the text, each once per match, '
     'passes arguments and results between rules, binds the text of named tokens, and creates a context per rule with its '
     'arguments and its caller; it asks the scanner only for tokens that may come at that place (all of them with the context-insensitive option), and never '
     'again with choices that were excluded before. Other texts '
     'end in YappsSyntaxError with a position or NoMoreTokens. The generator warns if and only if a token can start two '
     'clauses. The module holds the tokens in their order with the ignored ones marked, the text before and after '
     'the grammar unchanged, and parse(rule, text).',
     ['inputs'], 'all grammars, all token sequences',
     'The tests see five generated parsers; the first and follow sets, the order of alternatives and the tests emitted for '
     'another grammar are computed by code whose results on these five say little.',
     [TREEF], [('generator', 'Generator, Sequence, Choice, Option, Plus, Star, NonTerminal in ' + TREEF)],
     'abstract interpretation of the generator and of the modules it writes, against an LL(1) reference',
     'Grammar trees up to depth three (all combinations of two children), choices of up to five tokens in all partitions, chains of '
     'rules, recursion, parameters; texts of up to four tokens (five in the thorough tier). Where a warning was given, the '
     'generated parser may refuse more. The runtime classes are modelled by their documentation (they are C05).')
prop('C12', 'Grammar files are read as they are written',
     'For every grammar file the generator reads exactly the tokens, ignored patterns, options, rules, parameters and '
     'nested clauses that the file states, in order and with the operators applied to the item in front of them; '
     'token names become tokens and all others rules; literals used in rules become tokens once, before the named ones; actions and '
     'arguments are the text between the braces nearest to each other; text before the first and after the second %% line is carried over '
     'verbatim. A file that is no grammar is an error after which nothing has been written, and command line flags and options '
     'have their documented effect.',
     ['inputs'], 'all grammar files',
     'The tests read the five grammars of this project; a file that uses other constructs, or is wrong, is not among them.',
     [YG, YY], [('grammar of grammars', 'ParserDescription in ' + YG), ('program', 'generate and the main part of ' + YY)],
     'language equivalence of token patterns (exact automata) and abstract interpretation of reader and driver',
     'Token sequences of up to a bounded length from every rule of the grammar of grammars; the driver for every combination of '
     'options and of results of its parts.')
prop('C13', 'Every name, attribute, import and argument list resolves',
     'On no path through the package, its grammars, the parser generator or the programs that come with it is a name read that '
     'nothing has bound, an attribute or method used that its object cannot have, a function called with arguments it does not take, '
     'a format given more or fewer values than places, an import made that finds nothing, something raised that is no exception, '
     'a literal compared by identity, a function named instead of called, or a lazily computed sequence measured, indexed or gone '
     'through twice; under Python 3, also on error paths and with options that are rarely used.',
     ['inputs', 'histories'], 'all paths of all functions',
     'Python resolves names when a line runs; lines that no test reaches (errors, rare options, programs) fail with NameError, '
     'AttributeError or TypeError in front of the user instead of doing or reporting what they should.',
     ['src/CifFile_module.nw', 'src/StarFile.nw', 'src/YappsStarParser.nw', 'src/drel', 'src/yapps3', 'src/yapps3_compiled_rt.py', 'src/Programs'],
     [('modules', 'all 27 modules listed by checks/c13.py')],
     'scope and path-sensitive definite-assignment analysis, attribute, arity and laziness lints over all modules',
     'Attributes are checked where the class of the object is known from the source, and otherwise against everything that any '
     'object of the project, the language or an imported module has; argument lists where the function meant is known or no '
     'definition of that name takes them. Loops are taken to run at least once.')
RTF = 'src/yapps3_compiled_rt.py'
prop('C17', 'Syntax errors are reported with their place, line and rules',
     'For every text and every place in it the error display (print_line_with_pointer) writes, to the standard error, the line of the '
     'place, whole when it has up to 70 characters and never with characters of another line, whichever line ends (LF, CR, CRLF) '
     'surround it, and a caret under the character of the place, or behind the last one when the line ends there; a cut-off '
     'beginning is shown by dots. A report (print_error) starts with the line and column the scanner has reached and the message, and '
     'then shows each rule being parsed, innermost first, with its arguments and the first token of the rule. The errors of '
     'scanner and parser carry the position of the text that does not fit and the tokens that were possible. A scanner shows its last ten '
     'tokens with position, kind and text. wrap_error_reporter returns what the rule returns, reports syntax errors and an '
     'early end of the tokens (with the last tokens), and lets other errors through.',
     ['inputs'], 'all texts, places and rule stacks',
     'The tests never look at the text of a report; a wrong line end, an off-by-one at a line start, lines longer than the '
     'display, or places close to the start of the file show only in reports.',
     [RTF], [('display', 'print_line_with_pointer in ' + RTF), ('report', 'print_error, wrap_error_reporter, Context, Scanner.__repr__ in ' + RTF)],
     'abstract interpretation over texts whose characters are known only by their place',
     'Line parts of chosen lengths around the bounds 60, 70 and 80 (all lengths up to 85 in the thorough tier; the display looks at 80 '
     'characters on each side), eleven kinds of text before and eight after the line. Characters other than line ends count as alike.')
prop('C14', 'What a file says is what is read from it',
     'Reading a text that is a file of the grammar asked for (1.0, 1.1, 2.0, STAR2) gives exactly its contents: every data block and save '
     'frame once, with its heading as written, in the order of the file, every save frame under the block (or frame) it stands '
     'in; every item once with its value and every loop with its names and its columns in order, every value of a '
     'column complete and in its place; lists and tables of any depth as such, text fields line by line; names differing in case '
     'only are one name. A save frame may be called like a data block. A text that is no such file (tokens missing, out of place or '
     'too many, a repeated name or block, a loop with an incomplete row or none) is refused with an error, and nothing of it is '
     'left in the object that was to be filled; what was there before stays. With grammar "auto" the '
     'first grammar that fits is taken and remembered for writing. Everything holds with either scanner, for a path, an '
     'address or an open stream; text behind ctrl-Z is not read, and with permissive a wrong coding is read as latin1.',
     ['inputs', 'histories'], 'all files, all grammars, both scanners',
     'The tests read some dozens of files. A frame called like its block, a name repeated in another case, a loop ending in an empty list, a '
     'file into an object that already holds blocks - each combination takes another path through merging and looping, and a '
     'lost or misplaced value is silent.',
     ['src/YappsStarParser.nw', 'src/StarFile.nw', RTF, 'src/lib', TREEF],
     [('actions', 'the rules and helper functions in src/YappsStarParser.nw'),
      ('collection', 'StarFile, BlockCollection.NewBlock, merge_fast, _rekey, StarBlock.AddItem, CreateLoop in src/StarFile.nw'),
      ('entry', 'ReadStar in src/StarFile.nw'),
      ('scanners and parsers', 'Scanner, Parser in ' + RTF + ', src/lib, src/yapps3')],
     'abstract interpretation of the actions of the grammars over sequences of anonymous tokens, and of the scanners and the parser generator beneath',
     'Files are enumerated in families (each kind of value in each place, sequences of up to three elements, equal names and headings in '
     'all places, frames nested three deep), not all files; two frames of one file with the same name may be kept or '
     'refused; a table with the same key twice is not judged; a comma missing between elements of a STAR2 list is accepted; '
     'words of the text that are no tokens of the grammar at all (quotes in the middle of a word) are the matter of C05 and C09.')

prop('C11', 'What is written is read back as the same value',
     'Every text that can be put into a block is written, with whatever delimiter is asked for, so that a file with it in the same '
     'grammar (1.0, 1.1, 2.0, STAR2) is read back with exactly that text: the delimiters chosen make it one value token that ends '
     'where the text ends, whatever follows it (white space, and in lists and tables brackets, commas and colons), ahead of every '
     'other token or comment that could be looked for there; a line of a text field is never taken for anything else, a comment in particular; '
     'and what the grammar does with the token gives the text back. The same for keys of tables. Either scanner finds '
     'those tokens. The characters accepted in data names are those the grammars read in data names. Line breaks and padding are '
     'inserted between values only and a separator is never left out where it is needed.',
     ['inputs'], 'all texts of legal characters, all requested delimiters, all grammars',
     'A text that needs another delimiter than its neighbours (a quote at its end, a header of a protocol, a reserved word in '
     'capitals, a # at the start of a line, white space outside ASCII) reads back as something else only when '
     'it occurs; there are unboundedly many texts and each grammar has its own rules.',
     ['src/StarFile.nw', 'src/YappsStarParser.nw', RTF, 'src/lib'],
     [('writer', '_formatstring, _format_key, CIFStringIO.write, check_data_name in src/StarFile.nw'),
      ('reader', 'token patterns, rule data_value, stripextras, stripstring, striptriple in src/YappsStarParser.nw'),
      ('scanners', 'Scanner in ' + RTF + ', src/lib')],
     'abstract interpretation over regular languages of texts (exact automata), inclusion in the token languages',
     'Texts written through the line folding or text prefix protocol (longer lines than allowed, embedded "newline ;", headers of the '
     'protocols) are excluded, as the inverse of those rewritings is beyond regular languages; likewise texts reformatted on request, and the carriage return.')

SFN, CFN = 'src/StarFile.nw', 'src/CifFile_module.nw'
MODEL = 'abstract interpretation of the methods over anonymous names and values, compared after each operation with a written model'
prop('C15', 'A copy says the same and is independent of the original',
     'The copy of a data block, of a CIF block or of a collection of blocks, made with copy(), and the block made from another block, '
     'holds the same items, loops, values, order and printed spellings (a collection: the same blocks, frames in frames and their '
     'order); copy() keeps the class of a block, its character set, limit for names and compatibility mode, and the '
     'grammar, character set, scoping, standard, header and output template of a collection. Nothing that can be changed is '
     'shared: any later change of the copy leaves the original as it was, and the other way round.',
     ['histories', 'inputs'], 'all blocks and collections, all later changes',
     'A list of values shared by the two shows only when one is changed in place later, in code far from the copy, and the test suite '
     'copies a handful of blocks once.',
     [SFN, CFN], [('block', 'StarBlock.copy, StarBlock.__init__ in ' + SFN), ('CIF block', 'CifBlock.copy, __init__ in ' + CFN),
                  ('collection', 'BlockCollection.copy in ' + SFN)],
     MODEL + '; reachability of the objects a copy and its original hold',
     'Four forms of block and three of collection, as they are and after each single operation of a menu, are copied, then each '
     'operation is applied to either. A dictionary assigned for derivation and ValidCifBlock are not looked at.')
prop('C16', 'Asking and writing leave the data unchanged',
     'No question to a block, loop or collection (keys, values, items, length, membership, get, order, position, loop names, loops and '
     'their packets, keyed packets, children, parents, sub-collections, all values of an item) and no way of writing it (WriteOut and '
     'printing in any grammar, with an output template or an order of blocks, whether or not it succeeds) changes its contents, '
     'order, spellings or settings; and the lists of names, values and blocks given as an answer are not the lists that are kept.',
     ['histories', 'inputs'], 'all objects, all questions, all ways of writing',
     'The tests write or ask once and look at the answer; that the object was reordered, or its limits changed, shows in the next use only.',
     [SFN], [('questions', 'StarBlock, LoopBlock and BlockCollection in ' + SFN),
             ('writing', 'WriteOut, printsection, create_ordering, format_packets in ' + SFN)],
     'abstract interpretation of the methods over anonymous names and values, comparing the state of all reachable objects before and after',
     'Six forms of block, three of collection, as they are and after each operation of a menu; writing: the families of files of C14. Working data '
     'of the writer (line lengths, delimiters, hints taken from a template) do not count. Questions that derive values with a dictionary '
     'store them as documented, and are not looked at.')
prop('C18', 'What an object holds is in the text written from it',
     'WriteOut of a collection gives a text of the grammar set for it (1.0, 1.1, 2.0, STAR2), and reading that text gives the collection again: '
     'each block and save frame once, under the block it stands in (frames in frames: as such in STAR2, as frames of the data block in the '
     'other grammars), in its order or the order asked for; each item once, with its value and spelling; each loop with its names, all its packets '
     'and its order; with an output template the items it names first, in its order, and the others behind them. In a dictionary '
     '(standard "Dic") frames follow the contents of their block. Loops without packets have no written form and are left out; an object '
     'that has no form in the grammar (columns of different lengths) is refused, not cut.',
     ['inputs', 'histories'], 'all collections, however they came about, all grammars, templates and orders',
     'The tests write some files read before and compare some values. What is lost depends on the combination: nested frames, renamed '
     'frames, templates that name looped items, empty loops, lists in loops, objects put together by many operations.',
     [SFN, 'src/YappsStarParser.nw', RTF, 'src/lib', TREEF],
     [('writing', 'WriteOut, block_to_string_nested, printsection, create_ordering, format_packets, format_value in ' + SFN),
      ('reading', 'the rules in src/YappsStarParser.nw; scanners and parsers beneath in ' + RTF + ', src/lib, src/yapps3')],
     'abstract interpretation of the writer into a sequence of anonymous tokens, read again by the interpreted actions of the grammar; and of the scanners '
     'and the parser generator beneath',
     'Collections: the families of files of C14 read in, blocks and collections after the histories of C19, dictionaries under templates. Texts of values are anonymous: that one '
     'is written as one token of its text is C11, which excludes line folding and text prefixes. Comments and white space are not judged.')
prop('C19', 'An edit does exactly what it says',
     'After each operation that changes a block, a loop or a collection (setting, adding and deleting items; making loops, adding names and '
     'columns to them; adding, copying and removing packets; changing the order of items, loops and names in loops; merging in '
     'strict and replace mode; adding, replacing, removing, renaming, moving and merging blocks and frames; update and clear) the '
     'object holds exactly what the documentation says: that change and nothing else - the other items, values, loops, packets, frames, their '
     'order and printed spellings stay. Operations without a documented effect (unknown names, columns of another length, names in use, '
     'repeated names) are refused, and then nothing has changed.',
     ['histories', 'inputs'], 'all histories of operations, all names and values',
     'The tests call each operation once or twice on one small block; wrong effects come from combinations: a loop emptied by another one, a name that changes '
     'its case, a replaced block with frames, a move behind a removal.',
     [SFN, CFN], [('block', 'AddItem, RemoveItem, CreateLoop, AddLoopName, AddToLoop, RemoveKeyedPacket, ChangeItemOrder, merge in ' + SFN),
                  ('loop', 'LoopBlock in ' + SFN), ('collection', 'NewBlock, rename, set_parent, merge_fast, __delitem__ in ' + SFN),
                  ('CIF block', 'CifBlock in ' + CFN)],
     MODEL,
     'All histories of up to two operations of a menu of about 75 (30 for collections) from four forms of block and three of collection (three operations, sampled, in the '
     'thorough tier). Where the documentation leaves an effect open (order after a merge, blocks merged over equal names) it is not judged.')
prop('C20', 'Questions are answered from what the object holds',
     'Every question to a block, a loop or a collection gives the answer that its contents imply, whatever the letter case of the name asked for: '
     'membership, values, values with defaults, all names and pairs, length, order, position and loop of a name, names beside it in its loop; packets by number, by '
     'iteration and by one or more keys (with or without regard to case), which have the value of every name as an attribute; blocks and frames, '
     'roots, parents, children at one or all levels, first block, and the collection of the frames of a block or of a list of names, '
     'with their enclosure; all values of an item. A name that is not there, a number out of range, and a key with no or several packets '
     'are refused with KeyError, IndexError or ValueError.',
     ['histories', 'inputs'], 'all objects, names and keys',
     'The tests ask a few questions of one file; the answers after edits, of hidden frames, for names in another case or keys that occur twice are not compared with anything.',
     [SFN], [('block', 'StarBlock in ' + SFN), ('loop', 'LoopBlock, StarPacket, GetKeyedPacket, GetCompoundKeyedPacket in ' + SFN),
             ('collection', 'BlockCollection in ' + SFN)],
     MODEL,
     'Six forms of block, three of collection, as they are and after each operation of a menu; some 260000 questions. Packets of joined categories '
     '(semantic packets) and values derived with a dictionary are outside.')

DRELF = 'src/drel/py_from_ast.nw'
prop('C21', 'The Python made from a dREL method does what the method says',
     'For every dREL method the parser accepts, over a category that is looped or not, the Python text made from it is Python, and running it '
     'gives the value the method gives its target and makes the same calls and output in the same order: operators with the grouping of dREL, '
     'conditions, loops of every kind with break and next, lists, tables, groups and strings with their own lines, '
     'constants and functions known by any letter case, data names in any letter case, values of the row at hand, packets of other categories by key, optional '
     'values that are None when absent, functions defined in dREL, and category methods. With no row given, a method over a looped category gives the list of the '
     'values of all rows. The data names a method depends on, where they are asked for, are those it reads. The text of the method is cut '
     'and grouped as the dREL definition says.',
     ['inputs'], 'all methods, all values of what they read, all numbers of rows',
     'The tests translate some forty methods and look at one value of each; what stands in which place of a statement, '
     'which values are absent, how many rows there are, and which branch is taken vary without bound.',
     [DRELF, LEXF, YACCF], [('translator', 'make_python_function and its traversal in ' + DRELF), ('lexer, parser', LEXF + ', ' + YACCF)],
     'abstract interpretation of the translator over trees with named operands, and of the Python it writes over terms; automata for lexer and parser',
     'Trees: each kind of expression in each place of each other and of each statement, statements in statements, and families for rows, keys, '
     'optional values, functions, category methods (about 25000; thorough: three levels of operators). Numeric results of '
     'numpy, math and drel_runtime are outside, as are methods that change a list they were given, and a list as the index of a target.')

prop('C22', 'Derived values are numerically what the dictionary defines',
     'A value derived with a dictionary (by a dREL method, from an enumeration default, or by conversion of units or lists to arrays) is, to the '
     'precision of the arithmetic, the value that the definition gives for the data of the block, for every block.',
     ['inputs'], 'all blocks and all definitions',
     'The tests derive some dozens of values from two files.',
     ['src/drel/drel_runtime.nw', CFN], [('runtime', 'drel_add, drel_dot, aug_add in src/drel/drel_runtime.nw'), ('derivation', 'CifDic.derive_item in ' + CFN)], None, None,
     na='The value depends on floating point arithmetic done by numpy and on the method text in the dictionary file; no static argument in '
        'reach bounds either. What can be decided without numbers (the translation, C21; the grouping, C07) is claimed there.')
prop('C23', 'Reading and writing take time in proportion to the text',
     'The time and memory to read or write a file grow in proportion to its length, for every file that can be read.',
     ['inputs'], 'all files',
     'The tests read files of one or two sizes.',
     [RTF, SFN], [('scanner', 'Scanner in ' + RTF), ('blocks', 'StarBlock in ' + SFN)], None, None,
     na='Cost is a runtime quantity: it depends on how the regular expression engine of Python backtracks and on list operations whose length only the '
        'input gives; a static bound that is tight enough to notice a regression is not in reach.')
