package zz_jv_harness

import (
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/nba"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
)

// dict is a dictionary as it is given to the synonyms filter.
type dict struct {
	mappings   map[string]string
	ignoreCase bool
	ignore     []rune
}

var dicts []*dict

//jv:stub github.com/clipperhouse/jargon/filters/synonyms.NewFilter tables
func stubNewFilter(mappings map[string]string, ignoreCase bool, ignoreRunes []rune) jargon.Filter {
	d := &dict{mappings, ignoreCase, ignoreRunes}
	dicts = append(dicts, d)
	return func(s *jargon.TokenStream) *jargon.TokenStream {
		current = d
		return s
	}
}

var current *dict

// dictIssue is what is wrong with a dictionary, if anything.
func dictIssue(mappings map[string]string, ignoreCase bool, ignore []rune, names bool) string {
	panic(0)
}

func table(f jargon.Filter, names bool) {
	current = nil
	f(nil)
	if current == nil {
		undecided("the filter is not made of a dictionary")
	}
	assert(len(current.mappings) > 0, "C26: the dictionary is empty")
	if issue := dictIssue(current.mappings, current.ignoreCase, current.ignore, names); issue != "" {
		fail("C26: " + issue)
	}
}

// The Stack Overflow tags.
//
//jv:props C26
//jv:groups newtoken tables
//jv:init github.com/clipperhouse/jargon/filters/stackoverflow
func H_TagTable() { table(stackoverflow.Tags, false) }

// The NBA players.
//
//jv:props C26
//jv:groups newtoken tables
//jv:init github.com/clipperhouse/jargon/filters/nba
func H_PlayerTable() { table(nba.CurrentPlayers, true) }

func titled(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// The table of contractions: for each one, all forms, with their expansions in the same case.
//
//jv:props C15
//jv:delay 100000
//jv:flags nofold
func H_ContractionTable() {
	table := contractionTable()
	assert(len(table) > 0, "C15: there are no contractions")
	for k := range table {
		lower := strings.ToLower(strings.ReplaceAll(k, "’", "'"))
		exp, ok := table[lower]
		ensure(ok, "a contraction is missing in lower case, with a straight apostrophe: ", k)
		ensure(exp == strings.ToLower(exp) && exp != "", "the expansion of a contraction in lower case is not in lower case: ", lower)
		assert(len(strings.Split(exp, " ")) <= 3, "C15: an expansion has more than three words")
		for _, form := range []string{lower, strings.ReplaceAll(lower, "'", "’")} {
			ensure(table[form] == exp, "a contraction has no expansion, or another one than with a straight apostrophe: ", form)
			ensure(table[titled(form)] == titled(exp), "a contraction in title case is not expanded in title case: ", titled(form))
			ensure(table[strings.ToUpper(form)] == strings.ToUpper(exp), "a contraction in upper case is not expanded in upper case: ", strings.ToUpper(form))
		}
	}
}

func ensure(ok bool, msg, entry string) {
	assert(true, "C15: the table has an entry for every form of every contraction, expanded in the same case")
	if !ok {
		fail("C15: " + msg + entry)
	}
}
