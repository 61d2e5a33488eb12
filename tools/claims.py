AI='disjunctive abstract interpretation of the SSA form to a fixpoint, against monitors'
TRUST='Covers every input, read pattern and failure point of the environment model, without bound on length; trusts the analyzer and its models of the standard library and third-party packages. What it cannot decide is printed as INCONCLUSIVE and recorded in the evidence, not reported as a violation.'
CLAIM={
 'C01':(AI,TRUST),
 'C02':(AI,TRUST),
 'C03':(AI,TRUST+' At most one attribute per tag.'),
 'C04':(AI,TRUST),
 'C05':(AI,TRUST),
 'C06':(AI,TRUST+' Synonym filters: dictionaries of one or two synonyms of up to three words, one space between words; expansions of up to five tokens.'),
 'C07':(AI,TRUST+' Synonym filters: as for C06.'),
 'C08':(AI,TRUST),
 'C09':(AI,TRUST),
 'C10':('effect analysis of shared state on the abstract states of the interpretation',TRUST+' Decides writes to state that exists before a stream, and the guards (sync.Once, mutexes) of its reads and writes.'),
 'C11':(AI,TRUST+' Synonym filters: as for C06.'),
 'C12':(AI,TRUST+' Synonym filters: as for C06; the trie: one or two synonyms of up to two runes and tokens, and texts of up to three.'),
 'C13':(AI,TRUST+' Dictionary entries of up to five tokens; otherwise as for C12.'),
 'C14':(AI,TRUST+' The table is compared with a frozen copy of the one of Lucene.'),
 'C15':(AI,TRUST+' Expansions of up to five tokens; the table is compared with the one that the generator is interpreted to produce.'),
 'C16':(AI,TRUST),
 'C17':(AI,TRUST),
 'C18':(AI,TRUST),
 'C19':(AI,TRUST+' Representative command lines.'),
 'C20':(AI,TRUST+' Representative command lines of up to three options, in all forms of the flag parser.'),
 'C21':(AI,TRUST+' Representative paths and methods, and one request after another.'),
 'C22':(AI,TRUST),
 'C23':(AI,TRUST+' Two interacting queues: every sequence of three operations from any contents; one queue: any history.'),
 'C24':('abstract interpretation over every order of map iteration, and a taint analysis of map iterations and ambient inputs',TRUST+' Conflicting dictionary entries: two to four.'),
 'C25':(AI,TRUST+' Bounds as for the other properties.'),
 'C26':('constant evaluation of the shipped tables',TRUST),
 'C27':(AI,TRUST+' Up to three functions or filters.'),
}
