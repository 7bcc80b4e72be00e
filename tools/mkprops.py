#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties is kept here, in readable form)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Plain tokenization loses, adds and reorders nothing (round trip)',
 'Concatenating, in order, the values of all tokens of a tokenized text gives back exactly the bytes that were read, whatever those bytes are (empty text, invalid UTF-8 and cut-off characters included) and however long the text is. The only alternative is that an error is reported; a text is never silently shortened, and no token is empty.',
 ['inputs','schedules'],'every byte sequence, every way a reader can deliver it (chunk sizes, empty reads, data together with EOF), every length around the internal buffer sizes',
 'One hand-written text of about 400 bytes, read in one piece, is round-tripped; buffers are never crossed, no invalid UTF-8, no awkward reader.',
 ['tokenizer.go','tokenstream.go','token.go'],[('tokenizer over a bounded scanner','tokenizer.go: newTokenizer, next'),('stream wrapper','tokenstream.go: NewTokenStream')],
 ['values and order of the tokens returned by Tokenize and TokenizeString'],[('buffer','bytes read but not yet returned as tokens','bufio.Scanner inside tokenizer.sc')])
p('C02','Token boundaries follow Unicode word breaking, whatever the reader does',
 'A text is cut exactly where the Unicode word boundary rules (UAX #29) put a boundary, so that for example node.js, 1,000 and can\'t stay whole and a run of blanks is one token. The cuts depend on the text alone: not on how the reader delivers it, on the position in the text, or on buffer sizes.',
 ['inputs','schedules'],'every sequence of word-break character classes, every division of the text into reads, every offset relative to the internal buffers',
 'About forty expected tokens from one short text delivered in one read; which rule applies at a read or buffer boundary is never exercised.',
 ['tokenizer.go'],[('split function with lookahead','tokenizer.go: splitWords'),('uax29 words scanner','tokenizer.go: newTokenizer')],
 ['token values returned by Tokenize for chunked readers and by TokenizeString'])
p('C03','Space and punctuation flags are exactly a function of the token value',
 'A token is space exactly if every character of its value is Unicode white space, and punctuation exactly if every character is Unicode punctuation, a tab, a line feed or a carriage return; this holds for every value and for lemmas too, however the token was made, except for the markup and script tokens of HTML. A token built from a value has that value and the requested lemma flag, and an empty value gives no token.',
 ['inputs'],'every Unicode code point and every string, built directly or met in a stream, with either lemma flag',
 'No existing test looks at the flags of a token directly.',
 ['token.go','punct.go'],[('classification','token.go: NewToken'),('shared common tokens','token.go: common, init'),('punctuation definition','punct.go: isPunct')],
 ['Token.String, IsSpace, IsPunct, IsLemma'],[('common','table of shared pre-built tokens','token.go')])
p('C04','HTML tokenization reproduces the document verbatim, markup kept whole',
 'Concatenating the tokens of a tokenized HTML document gives back exactly the bytes of the document, including broken or unterminated markup. Every tag, comment, doctype or processing instruction is one token holding its original text, which is punctuation and not space.',
 ['inputs','schedules'],'every document (well-formed or not), every chunking of the reader',
 'One well-formed document; the test looks only for the presence of some tokens, not for order, completeness or verbatim text.',
 ['tokenizer_html.go'],[('HTML lexing','tokenizer_html.go: htokenizer.next'),('verbatim text of a lexeme','tokenizer_html.go: raw')],
 ['tokens returned by TokenizeHTML'])
p('C05','HTML text is tokenized like plain text; script and style content is not',
 'The text between markup is cut into tokens, with flags, exactly as plain tokenization would cut that piece of text, everywhere in the document. The content of a script or style element is one single token that is neither space nor punctuation; after the element ends, text is tokenized again.',
 ['inputs','histories'],'every sequence of tags, texts, comments, scripts and styles, in any order',
 'One document with a single script and style near its end; nothing is checked after them.',
 ['tokenizer_html.go'],[('inner token stream of a text node','tokenizer_html.go: ttokens'),('script/style mode','tokenizer_html.go: parent')],
 ['tokens returned by TokenizeHTML, with flags'],[('parent','whether we are inside of script or style','tokenizer_html.go: htokenizer.parent'),('ttokens','tokens of the current text node','tokenizer_html.go: htokenizer.ttokens')])
p('C06','Stream iteration protocol: each token once, in order, all consumers agree',
 'However the calls to the iteration methods (Next; Scan with Token and Err) and to the consuming methods (ToSlice, String, Count, WriteTo) of a stream are mixed, each token is handed out exactly once and in order, and the stream reports the end exactly when it is exhausted, and again on later calls; a token that was handed out does not change afterwards. After each retrieval the current token and error are those just retrieved; ToSlice, String, Count and WriteTo agree with what iterating would have given (WriteTo writes every value, returns the bytes written, and stops at the first write error).',
 ['histories','inputs'],'every sequence of calls on every stream, ending normally or with an error',
 'Tests call one method per stream; mixtures, calls after the end, failing writers and errors are not exercised.',
 ['tokenstream.go'],[('wrapper keeping Scan and Next consistent','tokenstream.go: NewTokenStream'),('consumers','tokenstream.go: ToSlice, String, WriteTo, Count')],
 ['results of TokenStream methods'],[('token, err','current token and error','tokenstream.go: TokenStream')])
p('C07','An input error always reaches the consumer, through every filter',
 'If reading the input fails at any point, then the consumer of the stream gets that very error, whatever filters are in between and whichever consuming method is used; a failure is never presented as a normal end of text. What was delivered before the error is a prefix of what the filters produce from the text read up to the failure.',
 ['fault_sequences','inputs','configurations'],'every failure position (including inside a lookahead, inside a character, or together with data), every chain of filters, plain and HTML, every consuming method',
 'No existing test makes a reader or a stream fail.',
 ['tokenizer.go','tokenizer_html.go','tokenstream.go','filters/synonyms/filter.go','filters/sigil/filter.go','filters/contractions/filter.go','filters/stopwords/filter.go','filters/mapper/filter.go'],
 [('error returns','next() of each filter'),('check of Err after Scan','filters/synonyms/filter.go: fill')],['error of Next, Err, ToSlice, String, Count, WriteTo'])
p('C08','Where, Words, Lemmas and Distinct select exactly the right tokens',
 'The stream of a selection consists of exactly those tokens of the original stream that qualify, unchanged and in the original order: those satisfying the predicate (Where), those neither punctuation nor space (Words), those flagged as lemma (Lemmas), and the first occurrence of each value (Distinct). Selections on the same or different streams do not influence each other.',
 ['inputs','histories'],'every stream and every nesting of selections, streams of any length and any number of distinct values',
 'One seven-word text for Distinct; Where, Words and Lemmas are untested.',
 ['tokenstream.go'],[('where iterator','tokenstream.go: where.next'),('set of seen values','tokenstream.go: Distinct')],['tokens of the selected stream'],[('seen','values already returned by this Distinct stream','tokenstream.go: Distinct')])
p('C09','Synonyms: leftmost, longest match is replaced by exactly its canonical',
 'Scanning left to right over each run of words (spaces may separate them, punctuation ends a run), the synonyms filter replaces, at each word, the longest listed synonym starting there by its canonical, and resumes after it; a word where no synonym starts is left alone. Text and synonyms are compared without the configured ignored characters and, if ignoring case is configured, in lower case; a match ends at a token end and spans at most as many words as the longest listed synonym. An empty canonical removes the match.',
 ['inputs','configurations'],'every dictionary (overlapping and nested synonyms, prefixes of one another, any ignored characters, either case setting) and every text',
 'Two small dictionaries and about a dozen sentences; backtracking from a failed longer match, window ends, case-sensitive dictionaries and runs longer than the lookahead are not covered.',
 ['filters/synonyms/filter.go','filters/synonyms/trie/trie.go'],[('greedy trie walk','trie.go: SearchCanonical'),('lookahead window','filter.go: fill, wordrun, maxWords'),('normalization','trie.go: Add and SearchCanonical')],
 ['output tokens of a filter made by synonyms.NewFilter'],[('buffer','lookahead tokens','filters/synonyms/filter.go: tokens.buffer'),('outgoing','tokens decided but not returned','filters/synonyms/filter.go: tokens.outgoing')])
p('C10','Synonyms: everything outside of a match passes through untouched',
 'Every input token is either returned unchanged (same value, same flags), exactly once and in order, or belongs to exactly one replaced span; a span starts and ends with a word, contains no punctuation, and yields exactly one token flagged as lemma (or none, if the canonical is empty). In particular the blanks and punctuation around matches are preserved.',
 ['inputs','configurations'],'every dictionary and every text, including texts ending inside a possible match',
 'Only whole output strings of a few sentences are compared; flags, and what happens at lookahead and end-of-text edges, are not.',
 ['filters/synonyms/filter.go','tokenqueue/queue.go'],[('buffer to outgoing moves','filters/synonyms/filter.go: next, fill'),('queue','tokenqueue/queue.go')],['output tokens of a filter made by synonyms.NewFilter, compared with its input tokens'])
p('C11','Streaming: bounded lookahead, output flows on endless input',
 'To hand out a token, tokenizers and filters read only a bounded amount of input beyond the text of that token (for HTML, beyond the piece of text or markup it is in; runs of blanks aside), a bound that does not grow with the length of the input or with what was read before. So output appears while input is still arriving (WriteTo and the jargon command included, apart from a buffer of fixed size), an endless input can be processed, and memory does not grow with input size.',
 ['inputs','schedules','configurations'],'every tokenizer and filter, every input length, including inputs that never end',
 'Tests use short texts and only look at the complete result.',
 ['tokenizer.go','tokenizer_html.go','filters/synonyms/filter.go','filters/sigil/filter.go','filters/contractions/filter.go','filters/mapper/filter.go','filters/stopwords/filter.go','tokenstream.go','cmd/jargon/main.go'],
 [('pull-based next functions','NewTokenStream and each next()'),('lookahead limit','filters/synonyms/filter.go: fill')],['number of tokens or bytes pulled from the source at the time a token comes out'])
p('C12','Filters can be shared: streams never influence one another',
 'One filter (built-in or made by any constructor) can be applied to any number of streams, used one after another, alternately or concurrently from several goroutines, including its very first use; each stream yields exactly the tokens it would yield with a filter of its own. There are no data races between them.',
 ['schedules','histories'],'every interleaving of reads from several streams sharing filters, and every schedule of concurrent first uses',
 'Every test uses one stream at a time, single-threaded, and never with the race detector.',
 ['filters/synonyms/filter.go','filters/sigil/filter.go','filters/contractions/filter.go','filters/mapper/filter.go','filters/stopwords/filter.go','token.go','tokenstream.go'],
 [('build once','filters/synonyms/filter.go: once, build'),('per-stream state','the tokens/stream struct of each filter'),('immutable shared tokens','token.go: common')],['tokens of each stream'],
 [('trie, maxWords, config','built lazily, once','filters/synonyms/filter.go: filter')])
p('C13','A synonyms dictionary that cannot be loaded fails every stream, cleanly',
 'If the dictionary given to a synonyms filter cannot be loaded, then every stream made with that filter reports that error when read, no matter how many streams were made before or by which goroutine. It never panics, and never passes text through as if the dictionary were empty.',
 ['fault_sequences','histories','schedules'],'every number and order of uses of a filter whose construction failed',
 'Construction failures are not tested.',
 ['filters/synonyms/filter.go'],[('remembered build error','filters/synonyms/filter.go: err, Filter')],['error of the first and later reads of each stream'],[('err','result of the lazy build','filters/synonyms/filter.go: filter')])
p('C14','Contractions are expanded exactly, preserving case',
 'Each token that is one of the known English contractions, written with a straight or a curly apostrophe, is replaced by the tokens of its expansion: in lower case, capitalized or upper case if the contraction was written so, and in lower case if it was written in any other mixture. The new tokens are flagged as lemmas, and every other token passes through unchanged.',
 ['inputs'],'every known contraction in every spelling (case mixture, apostrophe) in every context, and every other token',
 'Seven contractions in one sentence.',
 ['filters/contractions/filter.go','filters/contractions/generated.go'],[('lookup, exact then lower case','filters/contractions/filter.go: next, tryExpansion'),('table','filters/contractions/generated.go: mappings')],['tokens of contractions.Expand'])
p('C15','Sigils: handles and hashtags are joined exactly when legal, text is kept',
 'A sigil token (such as @ or #) followed directly by a legal name becomes one token with it, flagged as lemma, exactly if the sigil does not directly follow a word and was not itself rejected as the name after a preceding sigil; every other token passes unchanged, so the text as a whole never changes. A Twitter handle name is 1 to 15 ASCII letters, digits or underscores; a hashtag name consists of letters, numbers and underscores, and is a letter if it is a single character.',
 ['inputs','histories'],'every token sequence, every sigil and legality rule; every name for the two Twitter filters',
 'One example sentence with one handle; hashtags, boundaries, illegal names and text ends are not tested.',
 ['filters/sigil/filter.go','filters/twitter/filter.go'],[('lookahead and previous token','filters/sigil/filter.go: next, try'),('legality','filters/twitter/filter.go')],['tokens of filters made by sigil.NewFilter, twitter.Handles, twitter.Hashtags'],
 [('previous','last token returned','filters/sigil/filter.go: stream.previous'),('outgoing','rejected lookahead','filters/sigil/filter.go: stream.outgoing')])
p('C16','Stop words: exactly the listed words are removed',
 'A stop word filter removes every token whose value is one of the listed words (both compared in lower case, if ignoring case is configured) and returns all other tokens unchanged and in order.',
 ['inputs','configurations'],'every word list, either case setting, every token sequence (runs of stop words, only stop words, none)',
 'Two sentences per case setting.',
 ['filters/stopwords/filter.go'],[('set membership','filters/stopwords/filter.go: next, NewFilter')],['tokens of filters made by stopwords.NewFilter'])
p('C17','Mapping filters (fold, normalize, stem, custom) work one token to one token',
 'A mapping filter returns exactly one token per input token, in order: the result of applying its functions in the given order to that token alone; the stream never ends early. For the supplied folding, normalization and stemming filters the value is the folded, normalized or stemmed value; a token they change is flagged as lemma, a token they do not change is returned as it was, and stemming leaves space and punctuation alone (and any word that would stem to nothing).',
 ['inputs','configurations'],'every text, every list of mapping functions, every supplied mapping filter (ASCII folding, 4 normalization forms, 6 stemmers)',
 'One sentence for custom mapping, two for the English stemmer; normalization is untested.',
 ['filters/mapper/filter.go','filters/norm/filter.go','filters/stemmer/filter.go','filters/ascii/filter.go'],[('one pull per emit','filters/mapper/filter.go: next'),('unchanged means same token','filters/norm, stemmer, ascii: filter functions')],['tokens of the mapping filters'])
p('C18','ASCII folding follows the Lucene table for every character',
 'Folding a string replaces each character by its ASCII equivalent according to the Lucene ASCII folding table, and leaves every character without an equivalent as it is; characters are folded independently of each other. It reports a change exactly if some character was replaced.',
 ['inputs'],'every Unicode character, alone and in any combination',
 'A few dozen accented Latin-1 letters.',
 ['filters/ascii/fold.go','filters/ascii/filter.go','filters/ascii/ASCIIFoldingFilter.java'],[('folding switch','filters/ascii/fold.go: FoldString')],['result of FoldString and of the Fold filter'])
p('C19','The token queue is FIFO and loses nothing',
 'A token queue hands out tokens in the order they were added, each exactly once; dropping removes exactly that many from the front, moving one or all tokens to another queue appends them there in order and removes them here, and clearing empties it. Operations on one queue do not disturb another.',
 ['histories'],'every sequence of operations on any number of queues, of any size',
 'The queue has no tests of its own.',
 ['tokenqueue/queue.go'],[('in-place shift','tokenqueue/queue.go: Drop'),('append','tokenqueue/queue.go: Push, FlushTo')],['TokenQueue methods and contents'],[('Tokens','contents','tokenqueue/queue.go: TokenQueue')])
p('C20','Filters compose: a pipeline applies its filters in the given order',
 'Applying several filters at once gives exactly the tokens obtained by feeding the complete output of each filter to the next one, in the order given; applying none gives the original stream. This holds for every combination and repetition of filters. Applying filters reads nothing by itself: tokens are taken from the original stream only when the result is read.',
 ['configurations','inputs'],'every sequence of filters, every text',
 'No test applies more than one filter.',
 ['tokenstream.go'],[('fold over filters','tokenstream.go: Filter')],['tokens of TokenStream.Filter'])
p('C21','Command line: output is the library result of the flags, in flag order',
 'For any input, the jargon command prints the tokens that the library yields when the filters named by the flags (one or two dashes; -stem in the language given by -lang) are applied in the order of the flags to the input, tokenized as plain text or, with -html, as HTML: concatenated, or with -lines each followed by a line break, or with -count only their number and a line break.',
 ['configurations','inputs'],'every combination and order of flags, every input and size, via standard input or file, to standard output or file',
 'Tests cover option parsing helpers only, with three flag lists; the command is never run.',
 ['cmd/jargon/main.go'],[('filters in argument order','cmd/jargon/main.go: setFilters'),('output loop','cmd/jargon/main.go: execute'),('buffers','cmd/jargon/main.go: setReader, setWriter')],['standard output or the -out file of the jargon command'])
p('C22','Command line: input selection, output target and failures are reported',
 'The command reads either the -file argument or piped input: with both it fails, with neither it prints usage and no result. With -out the result goes to that file, which then holds exactly the result, and to standard output otherwise. Whenever input cannot be opened or read, an option is unknown or one that is used has an unknown value, or the output cannot be created or written, it exits with a nonzero status and a message on standard error; otherwise with status zero. As long as it has no input or an option is wrong, an existing output file is left as it was; -version shows the version only.',
 ['configurations','fault_sequences'],'every combination of input source, output target and failure',
 'Helpers for input and output selection are tested with an in-memory file system; exit status, messages, written files and write failures are not.',
 ['cmd/jargon/main.go'],[('selection','cmd/jargon/main.go: setInput, setOutput'),('exit status','cmd/jargon/main.go: main, check'),('flush','cmd/jargon/main.go: execute')],['exit status, standard output, standard error, files'])
p('C23','Web service: response is the lemmatized input, safely escaped',
 'A request to /text or /html (or a path below) is answered with the tokens of its body, tokenized as plain text or HTML and filtered for Stack Overflow tags, in order, each HTML-escaped, and those that are lemmas (and only those) wrapped in a span of class lemma; so no markup of the body is ever active in the response. A body that cannot be read or tokenized is answered with status 500, any other path (except the health check) with 404, OPTIONS with an empty response, and all with CORS headers; concurrent requests do not affect each other.',
 ['inputs','schedules'],'every path, method and body, any number of concurrent requests',
 'One request to /text, checked for two substrings.',
 ['web/main.go'],[('routing','web/main.go: mainHandler, jargonHandler'),('templates','web/main.go: lemma, plain')],['HTTP responses'])
p('C24','Lemma flag is honest: set exactly on what a filter changed',
 'For every filter, a token in its output that was not in its input (a replacement, an expansion, a join, a fold, a stem, a normalization) is flagged as lemma, and a token passed through keeps the flag it came with; tokenizers never set it. So Lemmas returns exactly the tokens that have been changed by a filter.',
 ['inputs','configurations'],'every filter and chain of filters, every text',
 'No test looks at the lemma flag of an output token; the web test sees one.',
 ['token.go','filters/synonyms/filter.go','filters/contractions/filter.go','filters/sigil/filter.go','filters/ascii/filter.go','filters/norm/filter.go','filters/stemmer/filter.go','tokenizer_html.go'],[('NewToken(..., true) for replacements','each filter')],['IsLemma of output tokens and output of Lemmas'])
p('C25','Dictionary syntax: a list is the same as its items, in any order',
 'A comma-separated list of synonyms mapped to a canonical behaves exactly as if each of its items were mapped separately: blanks around the start of an item and a trailing or doubled comma have no effect, and the order of items and of entries is irrelevant. An item that is empty, or consists of ignored characters only, matches nothing.',
 ['configurations','inputs'],'every dictionary and every way of writing it',
 'Dictionaries in the tests contain one trailing comma; equivalence of spellings is never compared.',
 ['filters/synonyms/filter.go','filters/synonyms/trie/trie.go'],[('splitting on comma tokens','filters/synonyms/filter.go: build'),('empty synonym','trie.go: Add')],['output tokens of filters made from different spellings of a dictionary'])
p('C26','Shipped vocabularies: every listed term is recognized, however spelled',
 'Every synonym listed for Stack Overflow tags and for NBA players is recognized in running text in any letter case, with the characters the vocabulary ignores (blanks, hyphens, dots and slashes; for players blanks, hyphens, dots and apostrophes) left out, and with other blanks between its words, and is replaced by the canonical listed for it, as far as its words are not separated by punctuation. Terms that are not listed are left alone.',
 ['inputs'],'every entry of the two vocabularies, every letter case, spacing and context',
 'About ten of some 4500 Stack Overflow and no NBA entries are tried.',
 ['filters/stackoverflow/filter.go','filters/stackoverflow/generated.go','filters/nba/filter.go','filters/nba/generated.go'],[('vocabulary','generated.go: mappings'),('ignored characters, case','filter.go: Tags, CurrentPlayers')],['tokens of stackoverflow.Tags and nba.CurrentPlayers'])
p('C27','Trie: the longest added key that the tokens spell is found, and nothing else',
 'After any sequence of additions to a trie (with or without searches in between), searching a sequence of tokens finds the longest added key that the text of its first tokens spells, where a key has to end at the end of a token, and returns its canonical (maybe empty) and the smallest number of tokens that spell it; if there is none, it reports that nothing was found. Keys and searched tokens are compared without the ignored characters and, if ignoring case, in lower case, however they are divided into tokens; the canonical added last for a key counts, a key that is empty after that is never found, and tries do not influence each other.',
 ['histories','inputs','configurations'],'every sequence of additions and searches on any number of tries, every configuration, every division of keys and texts into tokens',
 'The trie has no tests of its own; it is used through filters that search and never add again.',
 ['filters/synonyms/trie/trie.go'],[('adding','filters/synonyms/trie/trie.go: Add'),('greedy search','filters/synonyms/trie/trie.go: SearchCanonical')],
 ['results of SearchCanonical'],[('root','nodes by normalized character','filters/synonyms/trie/trie.go: RuneTrie, node')])
p('C28','Contractions generator: regenerating gives all spellings, and the same filter',
 'Running the generator of the contractions table writes a Go file with, for each known contraction, exactly its lower-case, capitalized and upper-case spelling, each with a straight and a curly apostrophe, mapped to the expansion in the same case, and nothing else; every run gives the same table, and the filter built with it expands contractions exactly as with the shipped one. If the file cannot be written, the generator fails.',
 ['histories','inputs'],'every run of the generator (the order of its list is random), every spelling',
 'The generator has no tests; the shipped table is tried with seven contractions.',
 ['filters/contractions/generate/main.go','filters/contractions/generated.go'],[('spellings','filters/contractions/generate/main.go: getMappings, apostrophes, title'),('formatting','filters/contractions/generate/main.go: write')],
 ['the generated file, and the filter built with it'])
p('C29','Tag generator: the dictionary is exactly what the tag service lists, or failure',
 'The generator of the Stack Overflow vocabulary asks for one page of tags after another, in order, as long as the service says there are more, up to its limit of 2000 tags, waiting as long as the service asks for; it then writes a dictionary in which, hyphens written as blanks, each synonym of a tag, except for the hard-coded exceptions, maps to that tag, and each tag that is neither an exception nor known as a synonym maps to itself; tags for moderators are left out, and nothing else is in. If the service answers with an error, unreadably or not at all, or asks to wait for more than ten seconds, or the file cannot be written, it fails with a nonzero status and a message, and leaves an existing file as it was.',
 ['histories','fault_sequences'],'every sequence of pages and answers of the service',
 'The generator needs the network and is never run by a test.',
 ['filters/stackoverflow/generate/main.go'],[('paging','filters/stackoverflow/generate/main.go: writeDictionary'),('fetching','filters/stackoverflow/generate/main.go: fetchTags')],
 ['requests to the tag service, exit status, the generated file'],[('mappings, seen','dictionary so far, synonyms met','filters/stackoverflow/generate/main.go: writeDictionary')])
p('C30','Player generator: every listed player under both spellings, or failure',
 'The generator of the NBA vocabulary writes a dictionary that has, for exactly the players linked in the third column of the roster tables of the page it fetches, the name as first and last name, and also its ASCII spelling if that is different, both mapped to the name. If the page cannot be fetched, is not answered with status 200, or lists a name that is not of the form last name, first name, or if the file cannot be written, it fails with a nonzero status and a message, and leaves an existing file as it was.',
 ['inputs','fault_sequences'],'every page and answer of the service',
 'The generator needs the network and is never run by a test.',
 ['filters/nba/generate/main.go'],[('fetching','filters/nba/generate/main.go: fetchNames'),('spellings','filters/nba/generate/main.go: getMappings')],
 ['exit status, the generated file'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
print(len(P))
