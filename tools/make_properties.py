import json
A='python/enolib/analyzer.py'; R='python/enolib/resolver.py'; C='python/enolib/context.py'; G='python/enolib/grammar_regex.py'
EL='python/enolib/elements/'; ERR='python/enolib/errors/'; REP='python/enolib/reporters/'; MSG='python/enolib/messages/'; LK='python/enolib/lookup.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over.split(),'text':text},'why_tests_cant':why,
      'anchors':{'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'state':[{'name':n,'meaning':m,'where':w} for n,m,w in state],'observe_at':list(observe),'hook_needed':None}})

p('P01','Any text is either read or rejected with a parse error, whatever is asked of it',
 'Parsing any text ends, and either gives a document or raises the library\'s parse error with a message, a report and a position; nothing else is ever raised, in any reporter and language. Everything an accepted document offers (values, comments, raw form, printed form, lookups at any position, error constructors) answers or raises the library\'s validation error, and it does so for every character a text can contain.',
 'inputs configurations','every text of any length and characters, every reporter, and every request on the resulting document',
 'The tests read a few dozen well-chosen documents; whether some other text crashes the analyzer, the resolver, a reporter or lookup with a KeyError, AttributeError or endless loop quantifies over all texts.',
 [A,R,C,LK,REP+'reporter.py',ERR+'parsing.py'],
 [('line by line analysis with a single grammar','analyzer.py Analyzer.analyze'),('fallback to an invalid line error','analyzer.py analyze, errors/parsing.py invalid_line'),('cycle detection','resolver.py resolve_non_section_element, resolve_section')],
 observe=['parse()','lookup()','every element accessor'])
p('P02','Every line is read as what the notation says it is',
 'For every single line, in every context, the library recognises the same construct as the notation defines: empty line, comment, field or fieldset or list, fieldset entry, list item, continuation, section, multiline field, copy, or an invalid line. Keys, values, escapes (backticks of any number), operators and surrounding whitespace are delimited exactly as the notation says, and no construct ever reaches across a line break.',
 'inputs','all lines over the characters that mean something in the notation, up to a bounded length, alone and in context',
 'The grammar is one large regular expression with many alternatives; its tests cover single sample lines, while precedence, backtracking and whitespace interplay only show for unusual combinations of characters.',
 [G,A],[('line grammar','grammar_regex.py'),('dispatch on the matched operator','analyzer.py Analyzer.analyze')],observe=['parse()','raw()','string_key()'])
p('P03','Elements, entries and items end up where they are written, in order',
 'An accepted document has exactly the elements that are written in it: each in the section it is written below, each entry and item in the field, fieldset or list above it, with its key, in the order of the lines. Nothing is lost, doubled, reordered or attributed to another parent, and what cannot stand where it is written is rejected.',
 'inputs','all documents up to a bounded number of lines over all line forms',
 'Where a line ends up depends on the state left by all lines before it; tests sample a few sequences.',
 [A,C,EL+'section.py',EL+'fieldset.py',EL+'list.py'],[('last element, last section and last continuable element are tracked','analyzer.py Analyzer.analyze')],
 [('last_non_section_element, last_section, last_continuable_element','what the next line is attached to','analyzer.py analyze')],['elements(), entries(), items()','raw()'])
p('P04','A value is put together from its line and its continuations',
 'The value of a field, fieldset entry or list item is the text of its own line, followed by its continuations, joined directly or with a space as each continuation says, with comments and empty lines between them being ignored. A value for which nothing but empty parts is given is absent, not an empty string.',
 'inputs','all sequences of values, empty values, direct and spaced continuations, comments and empty lines up to a bounded length, for each of the value types',
 'The rules for empty parts and spacing interact over whole sequences of continuations; tests have one or two.',
 [C,A],[('joining of continuations','context.py Context.value'),('attachment of continuations','analyzer.py analyze')],observe=['optional_string_value()','raw()'])
p('P05','What is inside a multiline field is taken verbatim',
 'The value of a multiline field is exactly the text between its opening line and the first line that closes it (same number of dashes, same key), whatever that text looks like, including whitespace, line endings and lines that mean something elsewhere. A field that is closed immediately has no value, and one that is never closed is rejected.',
 'inputs','all contents up to a bounded number of lines and characters, over line forms that nearly close the field and over verbatim characters, and all keys over special characters',
 'Only near misses of the closing line (other number of dashes, other spacing, keys that are special in regular expressions) and unusual content can break it; tests have ordinary content.',
 [A,C],[('terminator search','analyzer.py analyze'),('value range over the lines','analyzer.py analyze, context.py value')],observe=['optional_string_value()','raw()'])
p('P06','Comments belong to what directly follows them and keep relative indentation',
 'Comment lines that directly precede an element, entry or item are its comment, joined line by line without the common indentation and without empty lines at either end; all others belong to nothing and change nothing. Every element reports exactly its own comment.',
 'inputs','all sequences of comment lines (empty, indented, plain), empty lines and elements up to a bounded length',
 'Association and dedenting depend on arbitrary runs of comment lines; tests have a handful.',
 [A,C],[('pending comments','analyzer.py analyze'),('dedenting','context.py Context.comment')],[('comments','comment lines read and not yet attached','analyzer.py analyze')],['optional_string_comment()'])
p('P07','Sections nest by their level; a level is never skipped',
 'A section belongs to the closest section above it that is one level higher, and everything after a section\'s line belongs to it until the next section of the same or a higher level. A section that is more than one level below the current one is rejected.',
 'inputs','all sequences of section lines of several levels and elements between them, up to a bounded length',
 'The nesting is a state machine over the history of levels, of which the tests see a few runs.',
 [A],[('section hierarchy by depth','analyzer.py analyze')],[('last_section','the section lines belong to','analyzer.py analyze')],['sections()','elements()','raw()'])
p('P08','A document that breaks the notation is rejected at its first offence',
 'The error for a malformed document is the one for its first offending line, says what is wrong (invalid line, unterminated key or field, continuation or attribute without an element, wrong element type, skipped level), and selects exactly the text concerned. This holds wherever in a document the offence stands.',
 'inputs','all documents up to a bounded number of lines over all valid and offending line forms, and all positions',
 'Which error is raised and which range it selects depends on the context before the line; tests check each error once.',
 [A,ERR+'parsing.py',ERR+'selections.py'],[('error constructors','errors/parsing.py'),('tokenizing of the rest for the report','analyzer.py _tokenize_error_context')],observe=['ParseError.selection, text, snippet'])
p('P09','Copied elements have the content of their template plus their own',
 'An element copied from a template has the template\'s value, entries or items and comment where it has none of its own; own items are appended, own entries replace those with their key and are appended otherwise, an own value replaces or continues the template\'s. This holds through chains of copies of any length and never alters the template.',
 'inputs','all documents up to a bounded number of lines over definitions, copies, entries, items, continuations and comments',
 'The result depends on combinations of what the template and each copy in a chain have; tests check single copies.',
 [R,C],[('consolidation of elements','resolver.py consolidate_non_section_elements'),('mirroring','resolver.py mirror'),('merging at access','context.py entries, items, value, comment')],
 [('mirror','the template an element takes everything from','resolver.py mirror'),('extend','a value that continues the template\'s','resolver.py')],['raw()','values','comments'])
p('P10','A copied section has its template\'s elements except those it has itself',
 'A section copied from another has the elements of its template followed by its own, where an own element or several with some key replace all of the template\'s with that key. The result does not depend on whether the template is itself a copy, and the template stays as it is.',
 'inputs','all documents up to a bounded number of lines over sections, copied sections and elements with few keys',
 'Replacement by key depends on combinations of multiple elements per key on both sides and on chains.',
 [R,C],[('consolidation of sections','resolver.py consolidate_sections'),('effective elements','context.py elements, resolver.py elements')],
 [('extend','elements taken over from the template','resolver.py consolidate_sections')],['raw()','elements()'])
p('P11','Deep copies also merge sections and elements with the same key, recursively',
 'In a deep copy, a section or element that has the same key, type and uniqueness in both the copy and its template is merged by the same rules, on every level below it; where that is not the case the copy\'s own elements replace the template\'s. Plain copies never merge below the first level.',
 'inputs','all documents up to a bounded number of lines over sections of three levels, deep and plain copies, and elements with few keys',
 'The merge is recursive and its conditions are about pairs of subtrees; tests have two or three examples.',
 [R],[('deep consolidation','resolver.py consolidate_sections')],[('deep_copy','whether sections below are merged too','resolver.py')],['raw()','elements()'])
p('P12','Missing, ambiguous, cyclic and mismatched templates are always rejected',
 'A copy whose template does not exist, exists more than once in the document, leads back to itself, directly or through containment or merging, or has an incompatible type is always rejected with an error that names it and points at it, and no other copy is rejected. For sections only sections can be templates, for other elements only other elements.',
 'inputs','all documents up to a bounded number of lines over elements and sections, copies among a few keys in all directions',
 'Cycles and ambiguities arise in graphs of copies; the tests check the shortest ones.',
 [R,ERR+'parsing.py'],[('index of templates','resolver.py index'),('cycle detection','resolver.py resolve_non_section_element, resolve_section')],
 [('unresolved elements','copies that still need their template','analyzer.py, resolver.py')],['ParseError'])
p('P13','Where a template stands in the document makes no difference to the copy',
 'Moving definitions of templates before or after the elements copied from them, in any order, changes neither whether a document is accepted nor what any copy contains. Only the order of elements in the document follows the order of the text.',
 'inputs','all permutations of the blocks of a document with copies and templates, over all combinations of a set of blocks',
 'Resolution is recursive and marks work as done in an order that depends on the text; tests have templates first.',
 [R],[('resolution on demand','resolver.py resolve')],observe=['raw()'])
p('P14','Queries by key and type find exactly the elements there are',
 'For every section, fieldset and list, a query for elements (by key, by type, single or plural) gives exactly the elements with that key that can be used as that type, in order, and the single form gives the only one or complains with the error that fits when there are several or one of another type. A query without key considers all.',
 'inputs programs','all documents up to a bounded number of lines over the line forms, and every query with every relevant key',
 'The query methods repeat the same logic for many types, with and without key; tests query tailored documents.',
 [EL+'section.py',EL+'fieldset.py',EL+'section_element.py',ERR+'validation.py'],[('queries','section.py _element, _field, _fieldset, _list, _section, _empty and plural forms'),('index by key','section.py _elements')],observe=['element(), field(), fields(), entry(), entries(), items()'])
p('P15','Required elements raise, optional ones are absent, stand-ins do for the rest',
 'When an element or value is missing, the required form of a request raises an error naming it, the optional form gives nothing, and the plain form gives a stand-in which answers every request as absence and raises when something required is asked of it, unless a section or fieldset was set to require everything. That setting applies to it and everything below, whether the elements were looked at before or not.',
 'inputs histories','all documents up to a bounded size, every query in its three forms, every history of requirement settings up to a bounded length, and all chains of calls on stand-ins',
 'Presence, form, setting history and chained stand-ins multiply; tests check each once.',
 [EL+'section.py',EL+'fieldset.py',EL+'missing/missing_section.py',EL+'value_element_base.py',ERR+'validation.py'],[('missing error or stand-in','section.py _missing_error and queries'),('requirement settings','section.py all_elements_required, fieldset.py all_entries_required')],
 [('_all_elements_required','whether plain queries raise','section.py')],['optional_*, required_*','string representations'])
p('P16','The check for untouched elements finds exactly what was never looked at',
 'After any history of requests, asserting that everything was touched complains exactly when some element, entry or item (within the filter, if one is given) was never looked at, and points at one that was not. Touching a whole element explicitly touches everything in it.',
 'inputs histories','all documents up to a bounded size and on each all histories of requests up to a bounded length, merged by which elements are touched, with all filters over the keys',
 'The touched state is distributed over elements and conversions; tests follow two or three histories.',
 [EL+'section.py',EL+'fieldset.py',EL+'section_element.py',EL+'element_base.py'],[('touched marks','element_base.py touch, _touched; section.py _untouched, assert_all_touched')],
 [('_touched','whether an element was looked at','element_base.py')],['assert_all_touched()'])
p('P17','Elements can be used as what they are, and as one thing only',
 'An element says which types it can be used as, conversion to each of these works and to every other raises an error which names the actual type. An ambiguous element takes the type of its first conversion, and repeated or other conversions afterwards never give contradictory results, but a TypeError that says what it is in use as.',
 'inputs histories','all documents up to a bounded size, every element, and every sequence of questions and conversions up to a bounded length',
 'What is allowed depends on the element and on previous conversions; tests convert once.',
 [EL+'section_element.py',EL+'element.py'],[('conversions with cached results','section_element.py to_*, yields_*')],[('_yielded','what an ambiguous element was converted to','section_element.py')],['to_*(), yields_*()'])
p('P18','What is asked of a document, and in which order, changes no answer',
 'Every request on a document gives the same answer, or raises the same error, whatever was asked of the document before. Exempt are only the settings for required elements, the check for untouched elements, and the type an ambiguous element was converted to.',
 'inputs histories','all documents up to a bounded size and all histories of requests up to a bounded length',
 'Results are computed lazily and cached in shared structures; that an earlier request spoils a later one shows for particular pairs only.',
 [C,EL+'section.py',EL+'fieldset.py',EL+'list.py'],[('lazy caches','context.py comment, value, elements; section.py _elements')],
 [('computed, instantiated and indexed elements','caches','context.py, elements/*.py')],['all accessors'])
p('P19','Loaders get what is written, and their result or complaint reaches the caller',
 'A loader is called exactly once for a present value, key or comment, with exactly its text, and never for an absent one; its result is what the caller gets, and what it raises becomes a validation error with its message, the language\'s wording around it, and a selection of the text concerned. Registered loaders behave the same under their registered names, and conflicting registrations change nothing.',
 'inputs programs','all documents up to a bounded size, every element and accessor taking a loader, every behaviour of the loader, and all histories of registrations up to a bounded length',
 'There are dozens of accessors generated by hand or by registration; tests check some of them with one loader.',
 [EL+'value_element_base.py',EL+'element_base.py',EL+'field.py',EL+'list.py','python/enolib/register.py'],[('loader calls','value_element_base.py _value, element_base.py _comment, key'),('registration','register.py register')],observe=['value(), key(), comment() accessors','register()'])
p('P20','Every element knows the element that contains it',
 'The parent of each element, entry and item is the section, fieldset or list that contains it in the document, and following parents upwards always ends at the document. This holds however the element was reached, through queries, conversions, copies or lookup.',
 'inputs','all documents up to a bounded number of lines and every element in them, reached in every way',
 'Elements are created in several places with or without a parent; tests check one of them.',
 [EL+'section_element.py',EL+'fieldset_entry.py',EL+'list_item.py',LK],[('parents given at instantiation or built on demand','elements/*.py parent')],observe=['parent()'])
p('P21','Errors say what is wrong and point at it',
 'Every validation error, whether raised by the library or created by the caller for an element, value, key or comment, carries the message for what is wrong and selects exactly the range of the text that it is about. For what is missing the selection is where it would have been expected.',
 'inputs programs','all documents up to a bounded number of lines, every element, and every way to obtain an error from it',
 'Ranges depend on how the element, its continuations, comments and copies are laid out; tests check one layout.',
 [ERR+'validation.py',ERR+'selections.py',EL+'element_base.py'],[('selections','errors/selections.py'),('error constructors','errors/validation.py')],observe=['Error.text, selection, cursor'])
p('P22','Text reports show the lines that matter, as they are, marked and numbered',
 'The report of every error contains each line it marks and the lines around these, unchanged, with its right number, in order, each once, with omissions shown where lines are left out, and marks exactly the lines the error is about. It is headed by the source, when there is one, and the column titles.',
 'inputs configurations','all documents up to a bounded number of lines and every error that can be obtained from them',
 'Which lines are shown is computed from several overlapping ranges; tests compare a few complete reports.',
 [REP+'reporter.py',REP+'text_reporter.py'],[('collecting of lines to show','reporter.py report_* and snippet'),('line format','text_reporter.py')],observe=['Error.snippet'])
p('P23','HTML reports are well-formed and show what is in the document, escaped',
 'The HTML report of every error is well-formed, shows the same lines with the same numbers and marks as the text report, and whatever the document, its keys or its source contain appears as text and never as markup.',
 'inputs configurations','all documents up to a bounded number of lines and every error that can be obtained from them, and all special characters in every place',
 'Escaping must hold for every place text comes from; tests have one document.',
 [REP+'html_reporter.py',REP+'reporter.py'],[('escaping and markup','html_reporter.py')],observe=['Error.snippet'])
p('P24','Terminal reports show what text reports show and leave no style on',
 'With the styling taken away, the terminal report of every error shows the same lines, numbers and marks as the text report, and every line of the report ends with styles switched off. Every kind of line has a style.',
 'inputs configurations','all documents up to a bounded number of lines and every error that can be obtained from them',
 'Styles are looked up by kind of line and mark; a combination without style fails only when it occurs in a report.',
 [REP+'terminal_reporter.py',REP+'reporter.py'],[('styles','terminal_reporter.py')],observe=['Error.snippet'])
p('P25','Every message is worded as in the official catalog of its language',
 'In every language, every error has the wording of that language\'s catalog, with the names of the document filled in verbatim, whatever these names contain. All languages have the same messages, and English is used when none is chosen.',
 'inputs configurations','all languages, all messages, all combinations of arguments with special characters, and all errors of all documents up to a bounded number of lines',
 'There are seventy messages times three languages; tests compare English ones mostly.',
 [MSG+'en.py',MSG+'de.py',MSG+'es.py',ERR+'validation.py',ERR+'parsing.py'],[('catalogs','messages/*.py')],observe=['Error.text'])
p('P26','Looking up any position finds the element and token there',
 'For every index, and every line and column, of a valid document lookup gives the element written there and the token that the character belongs to, both ways of giving a position agree, and positions outside the document are rejected. The element found is equivalent to the one obtained by queries.',
 'inputs','all documents up to a bounded number of lines and characters, and every position in them and just outside',
 'There are two separate implementations, by index and by line, for every kind of element and every operator; tests check one document.',
 [LK],[('search by line','lookup.py check_*_by_line'),('search by index','lookup.py check_*_by_index'),('tokens from ranges','lookup.py lookup')],observe=['lookup()'])
p('P27','Documents have nothing to do with each other',
 'What is read, asked, set, raised or converted on one document never affects another, be they used one after the other, alternatingly, or in different threads at the same time. What a caller does with the collections and errors he was given does not affect other documents either.',
 'schedules histories','all interleavings of the requests of pairs of programs on separate documents, and all schedules of two threads with bounded preemptions at any line of the library',
 'Tests run one document at a time and sequentially; shared module state, default arguments and class attributes only show in interleavings.',
 [A,R,C,EL+'section.py',ERR+'selections.py'],[('all state is kept in the context of a document','context.py')],[('default arguments and module constants','shared between documents','resolver.py, errors/selections.py')],['parse() in several threads'])
p('P28','Formatting that means nothing changes nothing',
 'Indentation and trailing blanks of lines outside multiline fields, spacing around operators, blank lines and standalone comments between elements, escaping keys that need no escaping, Windows line endings, and a line break at the end change nothing about the content of a document or whether it is accepted. This holds for each such change at each place, alone and in combination.',
 'inputs programs','all documents up to a bounded number of lines over all line forms, times all rewritings that mean nothing at every place, singly and in pairs',
 'It relates pairs of documents, of which there are as many as documents times places; the tests never compare two documents.',
 [G,A,C],[('optional whitespace in the grammar','grammar_regex.py'),('empty lines and comments','analyzer.py analyze')],observe=['raw()','values, keys, comments'])
p('P29','Work grows with what is read, and no text makes it explode',
 'The number of steps that the library takes for reading a document, for each request on it, for a lookup and for the report of an error grows at most in proportion to the lines of the document and the elements, items and entries that it contains; what is obtained through a chain of copies may in addition take as many steps as the chain has members. Reading another document, or asking the same again, takes no more steps than it did before. No line, however malformed, takes time that grows exponentially with its length.',
 'inputs histories','all documents made of parts repeated n, 2n and 4n times over all kinds of parts and pairs of parts, all lines made of a repeated piece, and all requests repeated',
 'It relates documents of different sizes, and backtracking in regular expressions shows only with particular lines; tests have small documents and never count.',
 [G,A,R,EL+'section.py',C],[('single regular expression per line','grammar_regex.py'),('elements are instantiated once','section.py _elements'),('elements of copies are put together once','context.py elements')],observe=['steps of the library during parse() and every request'])
for x in P:
    x['statement'] = 'Python library: ' + x['statement']

J='javascript/lib/'; JE=J+'elements/'
p('P30','JavaScript: documents are read exactly as the notation says',
 'JavaScript library: every line is read as the construct that the notation defines, with its key, value, escapes, operators and surrounding whitespace delimited exactly as it says; elements, entries, items and sections end up where they are written, in order, nothing lost or doubled; values are put together from their line and continuations; multiline fields are taken verbatim up to the line that closes them; comments belong to what directly follows and keep relative indentation; sections nest by level; formatting that means nothing changes nothing. A document that breaks the notation is rejected with the error, arguments and selected range for its first offence. It reads every document as the Python library does.',
 'inputs','all lines over the characters of the notation, all documents of line forms, all contents of multiline fields, all runs of comments and section levels, up to bounds, and all meaningless rewritings of documents',
 'The library has its own line grammar and analyzer; its tests read sample documents, while precedence, whitespace and what follows what quantify over all texts.',
 [J+'grammar_matcher.js',J+'analyze.js',J+'context.js',J+'errors/parsing.js',J+'errors/selections.js'],[('line grammar','grammar_matcher.js'),('dispatch on the matched operator','analyze.js'),('values and comments','context.js')],observe=['parse()','raw()','values and comments','ParseError.selection, text'])
p('P31','JavaScript: copies have what their templates have plus their own',
 'JavaScript library: an element or section copied from a template, through chains of any length, has the content of the template plus its own, where own values and own elements or entries with the same key replace the template\'s, own items are appended and what is copied comes first; deep copies also merge sections with the same key at every level. A copy does not alter its template, does not depend on the order in which template and copy are written, and a missing, ambiguous or cyclic template is rejected as such. The result is the one the Python library gives.',
 'inputs','all documents up to a bounded number of lines over definitions, copies, deep copies, entries, items and nested sections, all graphs of copies, and all permutations of blocks',
 'What a copy has depends on what the template and each copy in a chain have, in which order they are written and resolved; tests check single copies.',
 [J+'resolve.js',J+'analyze.js',J+'context.js',JE+'section.js'],[('consolidation of elements and sections','resolve.js'),('merging at access','context.js, elements/section.js')],[('mirror, extend','the template an element takes its content from','resolve.js')],['raw()','values, elements, entries, items','ParseError'])
p('P32','JavaScript: queries, requirements, conversions and loaders answer right',
 'JavaScript library: every singular and plural query on sections, fieldsets and lists gives the element with that key, the stand-in for a missing one, null, or the validation error that says what is wrong (missing, several, wrong type), whatever the key is, names of built-in properties included. The setting that all elements or entries are required holds in exactly the section or fieldset it is made for and below, at any time. An element converts to just the types it can be, and to none once it was used as another, which the message then names. Loaders get the value as written, their result is handed out unchanged, and what they throw becomes a validation error; registered loaders are offered in all variants.',
 'inputs histories','all documents of line forms up to a bounded number of lines, all queries with all keys and flavours on them, all histories of settings and conversions up to a bounded length, and all loaders',
 'Answers depend on combinations of document, query, key, setting and earlier conversions; tests check each query on one document.',
 [JE+'section.js',JE+'fieldset.js',JE+'list.js',JE+'section_element.js',JE+'element_base.js',JE+'value_element_base.js',JE+'missing/missing_element_base.js',J+'errors/validation.js',J+'register.js'],[('queries','elements/section.js, fieldset.js'),('stand-ins for what is missing','elements/missing'),('conversions','elements/section_element.js'),('loaders','elements/value_element_base.js, register.js')],
 [('_yielded','the type an element was used as','elements/section_element.js'),('_allElementsRequired','the setting','elements/section.js')],['all queries','ValidationError'])
p('P33','JavaScript: nothing but its own errors, and these show what is wrong',
 'JavaScript library: any text is either read or rejected with a ParseError, and everything asked of an accepted document answers or throws a ValidationError, with every reporter and language. Every error points at the text it is about, and its report shows these lines with the required context, marked as they should be, in text, HTML (with everything from the document and the source label escaped) and terminal output. Every message is worded as in the catalog of its language with the names filled in verbatim.',
 'inputs configurations','all texts and documents up to bounds, all errors obtainable from them, all reporters, languages, messages and arguments',
 'Which error, range, lines and marks appear depends on the document around the error; tests check each error once.',
 [J+'reporters/reporter.js',J+'reporters/html_reporter.js',J+'reporters/text_reporter.js',J+'reporters/terminal_reporter.js',J+'errors/selections.js',J+'errors/validation.js',J+'errors/parsing.js',J+'error_types.js',J+'messages/en.js',J+'messages/de.js',J+'messages/es.js'],[('selection of what is reported','reporters/reporter.js, errors/*.js'),('rendering','reporters/*.js'),('catalogs','messages/*.js')],observe=['EnoError.text, snippet, selection, cursor'])
p('P34','JavaScript: lookup, parents and independent documents',
 'JavaScript library: for every index and every line and column of a valid document lookup gives the element written there and the token the character belongs to, both ways of giving a position agree, and positions outside are rejected. The parent of every element, entry and item is the one it is written in, however it was obtained. Documents have nothing to do with each other, in whatever order requests on several of them alternate, and whatever callers do with the collections and errors they were given.',
 'inputs schedules histories','all documents up to a bounded number of lines and every position in them, all ways to obtain an element, all interleavings of the requests of pairs of programs on separate documents',
 'There are separate lookups by index and by line for every kind of element; shared module state shows only in interleavings; tests check one document.',
 [J+'lookup.js',JE+'element_base.js',JE+'section.js',J+'context.js',J+'errors/selections.js'],[('search by line and by index','lookup.js'),('parents','elements/*.js parent')],[('module constants','shared between documents','errors/selections.js, resolve.js')],['lookup()','parent()'])
p('P35','JavaScript: asking changes nothing, and what was touched is exact',
 'JavaScript library: no request, whatever it is and whether it fails or not, changes the answer to any other request, so that after any history every answer is that of a fresh document. assertAllTouched throws if and only if some element, entry or item was neither queried nor touched nor excepted, and names the first of those in the order of the document.',
 'histories inputs','all histories of requests up to a bounded length on all of a family of documents, and all reachable sets of touched elements',
 'Elements are instantiated lazily and cached in several places, which only shows in particular orders of requests; tests make a few requests in a fixed order.',
 [JE+'section.js',JE+'fieldset.js',JE+'list.js',JE+'element_base.js',JE+'section_element.js',JE+'missing/missing_element_base.js'],[('lazy instantiation','elements/section.js, fieldset.js, list.js'),('touched','elements/element_base.js, section.js')],
 [('_touched','queried or touched','elements/element_base.js'),('instantiated elements','caches','elements/section.js')],['all requests','assertAllTouched()'])
p('P36','The Python and the JavaScript library understand every document alike',
 'The Python and the JavaScript library implement one notation and one interface: for every text both either read it or reject it, with the same message, report content and selection in each language; and every element of an accepted document is reached by the same requests in both, gives the same keys, comments, values, items, entries, elements, conversions and raw form, fails with the same errors, has the same parents, is touched by the same requests, and lies at the same positions.',
 'inputs configurations','every text, every element and every request that both libraries offer',
 'Each library has tests of its own with its own examples; that two implementations agree quantifies over all documents and requests.',
 [A,R,G,C,LK,EL+'section.py',MSG+'de.py',J+'analyze.js',J+'resolve.js',J+'grammar_matcher.js',J+'context.js',JE+'section.js',J+'lookup.js'],
 [('line grammar','grammar_regex.py, grammar_matcher.js'),('structure','analyzer.py, analyze.js'),('copies','resolver.py, resolve.js'),('messages','messages/*.py, lib/messages/*.js')],
 [('element records','the instructions of a document in each library','analyzer.py, analyze.js')],['parse()','lookup()','raw()','all requests'])
p('P37','JavaScript: work grows with what is read, and no text makes it explode',
 'JavaScript library: how much of the library is gone through for reading a document, for each request on it, for a lookup and for the report of an error grows at most in proportion to the lines of the document and the elements, items and entries that it contains; what is obtained through a chain of copies may in addition take as many steps as the chain has members. Reading another document, or asking the same again, takes no more than it did before. No line, however malformed, takes time that grows exponentially with its length.',
 'inputs histories','all documents made of parts repeated n, 2n and 4n times over all kinds of parts and pairs of parts, all lines made of a repeated piece, and all requests repeated',
 'It relates documents of different sizes, and backtracking in regular expressions shows only with particular lines; tests have small documents and never count.',
 [J+'grammar_matcher.js',J+'analyze.js',J+'resolve.js',J+'context.js',JE+'section.js',J+'reporters/reporter.js'],[('single regular expression per line','grammar_matcher.js'),('elements are instantiated once','elements/section.js _elements'),('elements of copies are put together once','context.js elements')],[('caches','computed elements, entries, items','context.js')],['what of the library is run during parse() and every request'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
