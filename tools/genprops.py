#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that the long texts stay readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))

p("C01","Plain-text tokenization round-trips",
 "For any input bytes, valid UTF-8 or not, and however the reader delivers them, the values of the tokens returned by tokenizing plain text (from a reader or a string), concatenated in order, equal the input exactly, unless an error is reported. Nothing is dropped, added or altered, and the stream ends only when the input does.",
 ["inputs","fault_sequences"],"every byte sequence, every chunking by the reader, every read error",
 "TestTokenizer round-trips one hand-written string; a value altered or dropped for one code point, one length or one reader behaviour passes it.",
 ["tokenizer.go","token.go","tokenstream.go"],
 [("Tokenize / TokenizeString","tokenizer.go"),("NewToken keeps its argument as the value","token.go"),("NewTokenStream wrapper","tokenstream.go")],
 ["(*TokenStream).Next","(*TokenStream).String"])
p("C02","HTML tokenization round-trips",
 "For any input bytes, the values of the tokens returned by tokenizing HTML, concatenated in order, equal the input exactly (tags, attributes, entities, comments, scripts, text and a tag left unfinished at the end of the input included), unless an error is reported. The stream ends only when the input does.",
 ["inputs","fault_sequences"],"every byte sequence as HTML, well-formed or not",
 "TestTokenizeHTML only looks for 14 expected tokens in one document and never compares the whole text.",
 ["tokenizer_html.go","token.go","tokenstream.go"],
 [("the raw bytes of the current HTML token are the token value","tokenizer_html.go"),("text nodes are re-tokenized from the raw bytes","tokenizer_html.go")],
 ["TokenizeHTML(...).Next"])
p("C03","HTML markup, scripts and styles stay whole; other text is tokenized",
 "When tokenizing HTML, every tag, comment or doctype is one token and counts as punctuation, and the text following a script or style start tag, up to its end tag, is one token that is neither punctuation nor space. All other text, wherever it stands (after a closed script or style included), is split into exactly the tokens that plain-text tokenization gives for it.",
 ["inputs","histories"],"every sequence of HTML tokens",
 "The test document has one script and one style and no words after them; order and nesting are not explored.",
 ["tokenizer_html.go"],
 [("parent element state: set on script/style start, cleared on its end","tokenizer_html.go"),("nested text stream drained before the next HTML token","tokenizer_html.go")],
 ["TokenizeHTML(...).Next"],[("parent","script/style element we are inside of","tokenizer_html.go"),("ttokens","tokens left in the current text node","tokenizer_html.go")])
p("C04","Tokens are classified by their text alone",
 "A token created from text has exactly that text as its value and the requested lemma flag; it is space if and only if all of its runes are Unicode white space, and punctuation if and only if all of its runes are Unicode punctuation, newline, carriage return or tab. This holds for every text, frequently used words included, and empty text gives no token.",
 ["inputs"],"every string and both lemma flags",
 "No test reads IsPunct or IsSpace of an arbitrary string; the table of pre-built common tokens is not tested at all.",
 ["token.go","punct.go"],
 [("NewToken","token.go"),("common token cache","token.go"),("isPunct / spaceIsPunct","punct.go")],
 ["NewToken","Token.IsPunct","Token.IsSpace","Token.IsLemma","Token.String"],[("common","pre-built tokens by text and lemma flag","token.go")])
p("C05","Read errors always reach the caller",
 "If the source of a stream fails at any point, the error reaches the caller through any tokenizer, filter, selection method or convenience method (slice, string, write, count) built on it, before the stream reports a normal end. A failure is never presented as the end of the stream or as a complete result.",
 ["fault_sequences","inputs"],"every point at which a source can fail, through every filter and collector",
 "No test uses a failing reader.",
 ["tokenizer.go","tokenizer_html.go","tokenstream.go","filters/mapper/filter.go","filters/sigil/filter.go","filters/contractions/filter.go","filters/stopwords/filter.go","filters/synonyms/filter.go"],
 [("error checks after each Next/Scan","every filter's next"),("Err after the Scan loop","tokenstream.go")],
 ["Next","Scan/Err","ToSlice","String","WriteTo","Count"])
p("C06","Filters conserve the tokens they do not replace",
 "Every filter returns the tokens it neither replaces nor removes unchanged, each exactly once and in their original order, with any replacement standing where the replaced tokens stood. A filtered stream ends when, and only when, the incoming stream has ended and everything read from it has been accounted for.",
 ["inputs","histories"],"every incoming token sequence, every filter, every dictionary",
 "Tests feed a dozen short phrases; lookahead buffers and queues misbehave only for particular sequences (lookahead at the end, punctuation after a partial match, consecutive matches).",
 ["filters/synonyms/filter.go","filters/sigil/filter.go","filters/contractions/filter.go","filters/mapper/filter.go","filters/stopwords/filter.go","tokenqueue/queue.go","tokenstream.go"],
 [("lookahead buffer and outgoing queue","filters/synonyms/filter.go"),("queued lookahead","filters/sigil/filter.go"),("queued expansion","filters/contractions/filter.go")],
 ["Next on each filtered stream"])
p("C07","A token is a lemma exactly when a filter produced it",
 "Every token that a filter substitutes for others (folded, stemmed, normalized, expanded, canonical or coalesced) is marked as a lemma, and tokens that pass through keep the mark they had. The built-in one-to-one filters replace a token only when its text changes.",
 ["inputs"],"every token and every shipped filter",
 "Existing tests compare text only, never the lemma mark, except in one web test.",
 ["filters/ascii/filter.go","filters/norm/filter.go","filters/stemmer/filter.go","filters/contractions/filter.go","filters/sigil/filter.go","filters/synonyms/filter.go"],
 [("NewToken(..., true) on replacement, the incoming token otherwise","each filter")],
 ["IsLemma on each filtered stream","Lemmas"])
p("C08","One stream, one sequence, whichever way it is read",
 "Reading a stream with Next, with Scan/Token/Err, or mixing them, visits the same tokens once each in order, and after the end or an error every further read reports the same outcome. The slice, string, write and count conveniences return exactly the tokens, the concatenated text, the written text (with the number of bytes the writer accepted, stopping at its first error) and the number of the tokens left in the stream.",
 ["histories","inputs","fault_sequences"],"every interleaving of the read methods on every stream; every writer failure",
 "Tests use each method once on a fresh stream and never after its end.",
 ["tokenstream.go"],
 [("wrapper in NewTokenStream keeps token/err in step with Next","tokenstream.go"),("Scan loops","tokenstream.go")],
 ["Next","Scan","Token","Err","ToSlice","String","WriteTo","Count"],[("token, err","current token and error","tokenstream.go")])
p("C09","Selections keep exactly the right tokens",
 "Selecting by predicate, words only, lemmas only, distinct values, or non-stop-words returns precisely the incoming tokens that qualify, unchanged and in order: words are neither punctuation nor space, distinct keeps the first token of each exact value, and stop words are compared exactly or ignoring case as requested, both in the list and in the text.",
 ["inputs"],"every token sequence, predicate and stop word list",
 "One Distinct test and four stop word phrases; Where, Words and Lemmas have none.",
 ["tokenstream.go","filters/stopwords/filter.go"],
 [("Where / Words / Lemmas / Distinct","tokenstream.go"),("stop word set and lookup","filters/stopwords/filter.go")],
 ["Where","Words","Lemmas","Distinct","stopwords.NewFilter"])
p("C10","Filters can be shared; streams do not interfere",
 "Any filter, including those held in package variables, can be used by any number of streams in any number of goroutines, the first use included: the streams share no state that is written after the filter is ready, and lazy initialization is complete and visible before anything is read from it. Tokens never change once created.",
 ["schedules","histories"],"every interleaving of streams over shared filters and tokens",
 "No test uses two streams at a time or runs concurrently; a race needs the race detector and a lucky schedule.",
 ["filters/synonyms/filter.go","filters/mapper/filter.go","filters/sigil/filter.go","filters/stopwords/filter.go","filters/contractions/filter.go","token.go","tokenstream.go","web/main.go"],
 [("sync.Once around the lazy build","filters/synonyms/filter.go"),("per-stream state allocated per call","each filter"),("tokens have no setters","token.go")],
 ["any Filter value used by several streams"])
p("C11","Filters stream: bounded lookahead, nothing read ahead of need",
 "Tokenizers, filters and the command line tool work token by token: a read from a filtered stream takes from its source only as far as needed to decide the next token, holding at most the words of the longest dictionary entry (and the spaces between them), whatever the size of the input. A filter that has a token ready returns it before reading on.",
 ["inputs","histories"],"every input, however long",
 "Tests use inputs of a few words, where reading everything at once is indistinguishable.",
 ["tokenizer.go","tokenstream.go","filters/synonyms/filter.go","filters/sigil/filter.go","filters/contractions/filter.go","cmd/jargon/main.go"],
 [("lookahead window limited by the longest synonym","filters/synonyms/filter.go"),("queue drained before reading","each filter")],
 ["reads from the source between two Next calls"])
p("C12","Synonym matching is greedy, left to right and normalized alike",
 "A synonym filter replaces, from left to right, the longest run of tokens (starting at a word, not crossing punctuation) whose text equals a synonym, by that synonym's canonical term, or by nothing if that is empty; the run ends with its last significant token. Case (if requested) and the ignored runes are disregarded in the dictionary and in the text in the same way; nothing else is.",
 ["inputs","configurations"],"every dictionary, ignore set and text",
 "Tests try a handful of phrases with two dictionaries.",
 ["filters/synonyms/filter.go","filters/synonyms/trie/trie.go"],
 [("SearchCanonical","filters/synonyms/trie/trie.go"),("wordrun","filters/synonyms/filter.go"),("Add","filters/synonyms/trie/trie.go")],
 ["synonyms.NewFilter","trie.RuneTrie"])
p("C13","Every synonym of a dictionary can be found",
 "Every comma-separated synonym of every dictionary entry, with leading spaces disregarded, is entered with its entry's canonical term, and the filter looks ahead as many words as the longest synonym has, or up to punctuation or the end. An empty synonym matches nothing.",
 ["configurations","inputs"],"every dictionary and every position in the text",
 "The unit tests' dictionaries have at most three synonyms of at most three words.",
 ["filters/synonyms/filter.go","filters/synonyms/trie/trie.go"],
 [("build splits on commas","filters/synonyms/filter.go"),("longest-synonym word count","filters/synonyms/filter.go"),("fill","filters/synonyms/filter.go")],
 ["synonyms.NewFilter"])
p("C14","ASCII folding matches Lucene's table",
 "Folding a string replaces each rune that Lucene's ASCIIFoldingFilter folds by Lucene's replacement and keeps every other rune, and reports a change if and only if a rune was replaced; an unchanged string is returned as it was. The ASCII filter replaces a token precisely when folding changes its text.",
 ["inputs"],"every string; all 1,242 folded runes and all others",
 "The test only checks that some Latin-1 words fold, not to what.",
 ["filters/ascii/fold.go","filters/ascii/filter.go","filters/ascii/ASCIIFoldingFilter.java"],
 [("rune switch ported from Lucene","filters/ascii/fold.go"),("folded flag","filters/ascii/fold.go")],
 ["ascii.FoldString","ascii.Fold"])
p("C15","Every contraction is expanded, in every case and apostrophe form",
 "A token that is a known contraction, in lower, title or upper case and with a straight or typographic apostrophe, is replaced by its expansion in the same case, tokenized; in other mixtures of case it expands as in lower case. The shipped table is exactly what its generator produces, and any other token passes through.",
 ["inputs","configurations"],"every contraction, case and apostrophe form; every other token",
 "The test expands 7 of 267 forms; the generated table is not compared with the generator.",
 ["filters/contractions/filter.go","filters/contractions/generated.go","filters/contractions/generate/main.go"],
 [("exact then lower-case lookup","filters/contractions/filter.go"),("case and apostrophe variations","filters/contractions/generate/main.go")],
 ["contractions.Expand"])
p("C16","Handles and hashtags are coalesced only where legal",
 "A sigil and the following token are combined into one token exactly when the sigil is the first token or follows a space or punctuation token (as last returned) and the following token is legal; otherwise both pass through. Handles allow at most 15 ASCII letters, digits or underscores; hashtags allow Unicode letters, numbers and underscores, a single-rune hashtag being a letter.",
 ["inputs","histories"],"every token sequence and every candidate name",
 "One example each; boundaries, lengths and queued lookahead are not explored.",
 ["filters/sigil/filter.go","filters/twitter/filter.go"],
 [("previous token","filters/sigil/filter.go"),("legalHandle / legalHashtag","filters/twitter/filter.go")],
 ["twitter.Handles","twitter.Hashtags","sigil.NewFilter"],[("previous","the token returned last","filters/sigil/filter.go")])
p("C17","Stemmers use their own language and touch only words",
 "Each language's stemmer filter replaces a word by that language's Snowball stem (stop words included) when it differs, and passes space, punctuation and already-stemmed words through unchanged.",
 ["inputs","configurations"],"every language and token",
 "Only English is exercised, on two phrases.",
 ["filters/stemmer/filter.go"],
 [("newStemmer","filters/stemmer/filter.go"),("language table","filters/stemmer/filter.go")],
 ["stemmer.English, French, Norwegian, Russian, Spanish, Swedish"])
p("C18","Unicode normalization filters produce their own form",
 "The NFC, NFD, NFKC and NFKD filters replace each token that is not in that normalization form by its normalized text and pass all other tokens through.",
 ["inputs"],"every token and form","The package has no tests.",
 ["filters/norm/filter.go"],[("newFilter(form)","filters/norm/filter.go")],["norm.NFC, NFD, NFKC, NFKD"])
p("C19","The command succeeds only if all output was written",
 "The command line tool exits with status 0 only if every token of the filtered input was written in order (each followed by a line break if requested; or their count, if requested) and flushed without error; any failure to open, read or write is reported on standard error with a non-zero status. The output file is created (truncated) only after the input and the filter options have been accepted.",
 ["fault_sequences","configurations","inputs"],"every option combination and every I/O failure",
 "No test runs main or execute, or injects a failure.",
 ["cmd/jargon/main.go"],
 [("check(err) after each step","cmd/jargon/main.go"),("Flush before success","cmd/jargon/main.go"),("order of set-up steps","cmd/jargon/main.go")],
 ["exit status","standard output / -out file","standard error"])
p("C20","Command line filters: the ones asked for, in the order asked for",
 "Every filter option given on the command line, in any form the flag parser accepts, is applied once per occurrence and in the order given, and no other; the stem filter uses the requested language, unknown languages being rejected. Every advertised filter option and language selects the filter of that name.",
 ["configurations"],"every argument list and language",
 "The test compares code pointers, which are the same for all stemmers and all mapper filters, for three argument lists.",
 ["cmd/jargon/main.go","filters/stemmer/filter.go"],
 [("filter table","cmd/jargon/main.go"),("language table","cmd/jargon/main.go"),("argument loop","cmd/jargon/main.go")],
 ["command line arguments","applied filters"])
p("C21","The web service escapes everything and fails cleanly",
 "For a request whose path starts with the element text or html, the response contains every token of the lemmatized body in order, HTML-escaped, lemmas wrapped in the lemma span and others not; nothing from the request reaches the response unescaped. A failure gives status 500 and no partial result, unknown routes give 404, and every response to the main route carries the CORS headers, OPTIONS requests getting nothing else.",
 ["inputs","fault_sequences"],"every request and body, every read or write failure",
 "One request with plain words; no markup, failure or other route.",
 ["web/main.go"],
 [("html/template for lemma and plain tokens","web/main.go"),("buffering before the response is written","web/main.go"),("error handling in the token loop","web/main.go")],
 ["HTTP response"])
p("C22","Generators never leave a broken or partial dictionary behind unnoticed",
 "A dictionary generator opens its output file for writing only after everything was fetched, rendered and formatted as Go source without error, writes exactly that formatted source, and ends with a failure status (or a panic) if any step, the write included, failed.",
 ["fault_sequences"],"every failing step of each generator",
 "The generators' I/O is not tested; two of them need the network.",
 ["filters/contractions/generate/main.go","filters/nba/generate/main.go","filters/stackoverflow/generate/main.go"],
 [("error checks before os.Create","each generator"),("format.Source","each generator")],
 ["generated.go","exit status"])
p("C23","Token queues are FIFO and own their storage",
 "A token queue behaves as a first-in first-out sequence under every mix of its operations: push appends in order, pop and drop remove from the front, moving between queues preserves order and leaves nothing behind, and length and emptiness agree. Operations on one queue never change the contents of another.",
 ["histories"],"every history of operations on any number of queues",
 "The package has no tests.",
 ["tokenqueue/queue.go"],
 [("in-place shift in Drop","tokenqueue/queue.go"),("append in Push and FlushTo","tokenqueue/queue.go")],
 ["tokenqueue.TokenQueue methods"],[("Tokens","queue contents, front first","tokenqueue/queue.go")])
p("C24","Results are deterministic",
 "Tokenizing and filtering the same input with the same filters and dictionaries gives the same tokens every time: the result does not depend on map iteration order, time, randomness, environment or goroutine scheduling, even where dictionary entries conflict.",
 ["schedules","configurations"],"every run, every map iteration order",
 "Tests run once with non-conflicting dictionaries; map iteration order is random per run.",
 ["filters/synonyms/filter.go","tokenstream.go","filters/contractions/filter.go","filters/stopwords/filter.go"],
 [("sorted dictionary keys","filters/synonyms/filter.go")],["any filtered stream"])
p("C25","No input makes the library panic",
 "No text, HTML, token sequence, dictionary (including one that fails to load), argument list or request makes a tokenizer, filter, stream method, the command line tool or the web handler panic; repeated use of a filter whose dictionary failed to load reports the failure each time.",
 ["inputs","fault_sequences","histories"],"every input, failure and call sequence",
 "Panics need specific lookahead states, empty sequences or failed initialization that tests never create.",
 ["tokenqueue/queue.go","filters/synonyms/filter.go","filters/mapper/filter.go","filters/sigil/filter.go","web/main.go","tokenizer_html.go"],
 [("emptiness checks before Pop and Tokens[0]","filters"),("nil checks after Next","filters"),("kept build error","filters/synonyms/filter.go")],
 ["any public entry point"])
p("C26","Shipped dictionaries are unambiguous and complete",
 "In each shipped dictionary no two entries claim the same synonym (after case and ignored runes are disregarded) for different canonical terms, no synonym or canonical term is empty, and every NBA player's name is also recognized with its diacritics folded to ASCII.",
 ["configurations"],"all 3,996 + 530 shipped synonyms",
 "Tests look up a dozen of about 4,500 synonyms.",
 ["filters/stackoverflow/generated.go","filters/stackoverflow/filter.go","filters/nba/generated.go","filters/nba/filter.go"],
 [("generated mappings","generated.go files"),("ignored runes","filters/stackoverflow/filter.go, filters/nba/filter.go")],
 ["stackoverflow.Tags","nba.CurrentPlayers"])
p("C27","Filters and mapping functions compose in the order given",
 "Applying several filters to a stream equals applying them one after another in the order given, none meaning the stream itself; a mapping filter applies all of its functions to every token in the order given, each to the result of the one before, and a token mapped to nothing is left out without ending the stream.",
 ["inputs","configurations"],"every list of filters or functions and every token sequence",
 "Tests apply a single filter or function.",
 ["tokenstream.go","filters/mapper/filter.go"],
 [("Filter loop","tokenstream.go"),("function loop","filters/mapper/filter.go")],
 ["(*TokenStream).Filter","mapper.NewFilter"])
p("C28","Execution time is linear in the input size",
 "Tokenizing and filtering take time proportional to the size of the input.",
 ["inputs"],"every input size","Benchmarks are not run by the tests.",
 ["README.md","tokenizer.go"],[("streaming design","README.md")],["running time"])
p("C29","Word boundaries follow Unicode text segmentation",
 "Plain text is split at the word boundaries of Unicode UAX #29.",
 ["inputs"],"every string","One string is checked.",
 ["tokenizer.go"],[("uax29 words scanner","github.com/clipperhouse/uax29")],["Tokenize"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
