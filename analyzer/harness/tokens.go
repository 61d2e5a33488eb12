package zz_jv_harness

import (
	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
)

// A token made of any text.
//
//jv:props C01 C02 C03 C04 C07 C10 C12 C14 C15 C16 C17 C18 C25
//jv:groups none
//jv:attrs rune:punct rune:space
func H_NewToken() {
	s := anyString()
	lemma := anyBool()
	t := jargon.NewToken(s, lemma)
	if s == "" {
		assert(t == nil, "C04: an empty text gives a token")
		return
	}
	assert(t != nil, "C01 C02 C03 C04: a text gives no token")
	assert(t.String() == s, "C01 C02 C03 C04 C12 C14 C15 C16 C17 C18: a token's value is not its text")
	assert(t.IsLemma() == lemma, "C04 C07: a token does not have the lemma flag requested")
	assert(t.IsPunct() == (outside(s, "punct") == 0), "C03 C04: a token is not punctuation exactly if all its runes are")
	assert(t.IsSpace() == (outside(s, "space") == 0), "C03 C04: a token is not space exactly if all its runes are")
}

func anyRunesText(n int) string { panic(0) } // a text of n runes
func foldText(s string) string  { panic(0) } // the text with each rune replaced as Lucene does

// folds checks the folding of a text.
func folds(s string) {
	got, folded := ascii.FoldString(s)
	n := outside(s, "unfoldable")
	assert(folded == (n > 0), "C14: folding does not report exactly whether a rune was replaced")
	if folded {
		assert(sameText(got, foldText(s)), "C14: a folded text differs from Lucene's")
	} else {
		assert(got == s, "C14: a text that is not folded is changed")
	}
}

// Folding any string.
//
//jv:props C10 C14 C25
//jv:groups none
//jv:attrs rune:unfoldable
//jv:flags images
//jv:time 240s
func H_FoldString() { folds(anyString()) }

// Folding any single rune.
//
//jv:props C10 C14 C25
//jv:groups none
//jv:attrs rune:unfoldable
//jv:flags images nofold
func H_FoldOne() { folds(anyRunesText(1)) }

// Folding any two runes of which one is folded.
//
//jv:props C10 C14 C25
//jv:groups none
//jv:attrs rune:unfoldable
//jv:flags images nofold
func H_FoldTwo() {
	s := anyRunesText(2)
	assume(outside(s, "unfoldable") == 1)
	folds(s)
}
