package zz_jv_harness

import (
	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/twitter"
)

// coalesces checks a filter that combines a sigil with the token that follows it, if that is legal.
func coalesces(f jargon.Filter, sigil string, legal func(string) bool) {
	share()
	src := &source{}
	var prev, p1, p2 *Token // the token returned last; the tokens read and not yet returned
	passing := false        // p1 has been looked at
	begins := func() bool {
		return !passing && p1.String() == sigil && (prev == nil || prev.IsSpace() || prev.IsPunct())
	}
	src.given = func(t *Token) {
		if p1 == nil {
			p1 = t
			passing = false
			return
		}
		assert(p2 == nil, "C06 C11 C16: the source is read ahead of need, or a token is dropped")
		assert(begins(), "C06 C11 C16: the source is read ahead although no sigil starts here")
		p2 = t
	}
	st := f(jargon.NewTokenStream(src.next))
	assert(p1 == nil && !src.ended, "C11: the source is read before the first token is asked for")
	for {
		t, err := st.Next()
		if t == nil || err != nil {
			atEnd(src, t, err)
			if err == nil {
				assert(p1 == nil, "C06 C16: a token is dropped at the end")
			}
			t2, err2 := st.Next()
			assert(t2 == nil && (err2 == err || src.once), "C05 C06 C08: reading after the end gives another outcome")
			return
		}
		assert(p1 != nil, "C06 C16: a token is returned twice")
		if p2 != nil && legal(p2.String()) {
			isNew(t, sigil+p2.String())
			p1, p2 = nil, nil
		} else {
			assert(sameToken(t, p1), "C06 C07 C16: a token that is not to be coalesced is changed, dropped or out of order")
			if p2 == nil && begins() {
				assert(src.ended, "C16: a sigil that may start a combination is returned without looking at what follows")
			}
			p1, p2 = p2, nil
			passing = true
		}
		prev = t
	}
}

// A sigil filter, for any stream, sigil and predicate of legality.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C16 C25
//jv:groups newtoken
func H_Sigil() {
	s := anyString()
	assume(s != "")
	legal := func(s string) bool { return pr1("legal", s) }
	coalesces(sigil.NewFilter(s, legal), s, legal)
}

// Twitter handles, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C16 C25
//jv:groups newtoken
//jv:attrs rune:handle
func H_Handles() {
	coalesces(twitter.Handles, "@", func(s string) bool { return outside(s, "handle") == 0 && runeCount(s) <= 15 })
}

// Twitter hashtags, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C16 C25
//jv:groups newtoken
//jv:attrs rune:hashtag rune:letter
func H_Hashtags() {
	coalesces(twitter.Hashtags, "#", func(s string) bool {
		return outside(s, "hashtag") == 0 && (runeCount(s) > 1 || outside(s, "letter") == 0)
	})
}
