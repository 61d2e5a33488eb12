// Code generated by tools/design.py; DO NOT EDIT.

package main

func init() {
	ruleOf = map[string]string{
		"C01": "The tokenizers are analysed from their public entry points with the word scanner of uax29 replaced by its contract: an arbitrary (unbounded, nondeterministic) sequence of non-empty pieces of the reader's text, ended by the end or by a failure at any point. A monitor follows each piece: it must be returned as one token with exactly that text before the next one is read, and the end must be reported when and only when the scanner ended without a failure. Wrapping, buffering or replacing the reader is followed, too (the text scanned has to be the reader's). Bounds: none on the length of the input; how uax29 splits is its contract (C29).",
		"C02": "As C01, with x/net/html's tokenizer replaced by its contract: any sequence of start, end and self-closing tags, comments, doctypes, texts (raw bytes given by Raw, unescaped ones by Text and Token), a failure at any point, and raw bytes left at the end. Bounds: at most one attribute per tag in the model of Token().",
		"C03": "In the same analysis, the monitor knows the kind of every piece and the element that was opened last: a tag, comment or doctype is one punctuation token; raw text after script or style is one token, neither punctuation nor space; all other text goes to the plain-text tokenizer as a whole (its calls are intercepted, and its tokens are followed one by one). Bounds: as C02.",
		"C04": "NewToken is analysed for any text and flag; texts are sequences of runes of which, for each class of runes, the number outside of the class is kept exactly by the abstract domain, so that 'all runes are ...' is decided by linear facts. The table of common words is evaluated by interpreting the package's initialization. In the harnesses of filters, every token made is compared with NewToken's specification. Bounds: none.",
		"C05": "Every tokenizer, filter, selection and convenience method is run on a source that may fail at any read; the monitor requires the source's error (and nothing else) before the end, again on every further read, and never together with a token. Also for a dictionary that cannot be read, the command line tool and the web service. Bounds: none on the histories of reads.",
		"C06": "For every filter a monitor holds the tokens read and not yet accounted for, and checks every token returned against it: passed tokens by identity, replacements by text and place; at the end nothing may be left. Bounds: mapping functions and filters: 0-3; the synonyms filter: see C12.",
		"C07": "Part of the same monitors: replacements have the lemma flag, passed tokens are the same objects (which C10 shows are never written), and one-to-one filters replace only if the text changes. Bounds: as C06.",
		"C08": "Any mixture of Next, Scan, Token and Err on a stream with an arbitrary source (a loop over nondeterministic choices, analysed to a fixpoint), and each convenience method after any part of the stream was read. Sequences of tokens and their concatenated texts are kept symbolically as sequences of segments, so equality is decided for any number of tokens. The writer may accept any part of what it is given. Bounds: none.",
		"C09": "Each selection method on an arbitrary source, with the predicate uninterpreted, or classified by an arbitrary token's flags and text; maps keep their history of keys, so 'seen before' is decided for any number of tokens. Bounds: the stop words: any list of up to two words, compared as texts or lower-cased texts.",
		"C10": "Effects: objects that exist before the streams are made (package variables, filters, what they captured) are shared; every read and write of a shared object is collected with the locks held and the sync.Once completed before it. A write that is not inside of once.Do or a mutex that all other accesses hold, too, or a read of what once.Do writes that is not preceded by it, is a violation; so is any write to a token after it was given out. This is a lock-set and ownership analysis over all paths of all harnesses of filters, selections and tokenizers. Bounds: aliasing is as precise as the abstract heap (objects of one allocation in one state).",
		"C11": "The monitors of C06 check at every read of the source whether a token was ready; the synonyms filter may read on only while the longest synonym could still match and no punctuation came; the command and the web handler are checked to pass tokens on while reading, and not to read their input as a whole. Bounds: the longest synonym: up to three words.",
		"C12": "The filter is run on arbitrary streams with an arbitrary trie (intercepted calls: any answer consistent with a dictionary of one or two synonyms); the monitor recomputes which run is to be searched for. The trie itself is analysed with one or two entries and an arbitrary search, with case and ignored runes arbitrary. Bounds: one or two synonyms of up to three words, at most one space between words in the lookahead; the trie: up to two entries of up to two runes in up to two tokens.",
		"C13": "Building from an arbitrary entry: the entry's text is tokenized by the intercepted tokenizer into up to five arbitrary tokens; the monitor recomputes the synonyms and compares what is entered into the trie; then the lookahead is checked in a use of the filter. Failures of reading are included. Bounds: entries of up to five tokens, one or two of them.",
		"C14": "FoldString is analysed for any string and (for the exact text) for any one rune, and any two of which one is folded; the replacement of each rune is derived from the function's switch by interpreting it on sets of runes, and compared with Lucene's table (analyzer/lucene.go). Bounds: the equality of the text for longer strings is shown with each rune's image kept in order.",
		"C15": "The filter on arbitrary streams with the expansion tokenized into 1-5 arbitrary pieces; the shipped table is evaluated from the source of generated.go and compared entry by entry with what the generator's code computes, interpreted abstractly, and with the required forms. Bounds: expansions of up to five tokens.",
		"C16": "Sigil filters on arbitrary streams with an arbitrary sigil and predicate; the predicates of handles and hashtags are analysed on arbitrary texts with exact rune classes and counts. Bounds: none.",
		"C17": "Each stemmer filter on arbitrary streams with the six Snowball functions uninterpreted but distinct, the flag for stop words included. Bounds: none.",
		"C18": "Each normalization filter on arbitrary streams with the four forms uninterpreted but distinct, their span and quick-check functions related to the normalized text. Bounds: none.",
		"C19": "main is run with its environment (files, standard streams, flags, filters) replaced by models that may fail at every call; the monitor records what was opened, created, written and flushed, and what the exit status was. Bounds: a representative set of command lines.",
		"C20": "As C19, with the filters' identities tracked: any option in any form the flag parser accepts, any three options, any language. Bounds: up to three filter options per command line.",
		"C21": "The registered handlers are run on arbitrary requests (method, path from representative ones, body) with failures at every read, write or template execution; the response is a symbolic text which is compared with the escaped tokens, and the headers and status with the rules. Bounds: two requests in a row; representative paths.",
		"C22": "Each generator's main with models of the network, parsers, templates, formatter and files that may fail at every call. Bounds: up to two entries fetched.",
		"C23": "Any three operations on two queues with arbitrary contents, perhaps made of the same slice; and any history of operations on one queue (a loop analysed to a fixpoint). Slices alias exactly as in Go (arrays with bounds), including append within capacity. Bounds: three operations for two queues.",
		"C24": "A dataflow lint over all library packages: results of functions of time, randomness, environment or the machine, goroutines, selects and unordered map iterations are followed to what they may select or order; what is written under a map iteration must be independent of its order (same value, keyed by the entry, sums, or sorted afterwards). Conflicting dictionary entries are additionally analysed in all orders (H_SynonymsOrder). Bounds: maps of up to four entries in all orders in the harness.",
		"C25": "Every harness reports any possible run-time panic (nil dereference, index, slice bounds, nil map write, failed type assertion, explicit panic, division) on any abstract path. Bounds: of the harnesses.",
		"C26": "The shipped dictionaries are read from the syntax of their composite literals, and each entry is examined; the case and ignored runes are taken from the call that makes the filter. Bounds: none: all entries.",
		"C27": "Filter and mapper with 0-3 arbitrary filters or functions, which record their order and arguments. Bounds: up to three functions or filters.",
	}
}
