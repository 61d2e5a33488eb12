package zz_jv_harness

import (
	"io"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/contractions"
)

func contractionTable() map[string]string { panic(0) } // the shipped table, whatever it is called

// pieces is the stream of tokens of a tokenized expansion: at least one and at most five.
type pieces struct {
	n     int
	ended bool
	err   error
	given func(*Token)
}

func (p *pieces) next() (*Token, error) {
	if p.ended {
		return nil, p.err
	}
	if p.n == 0 || p.n < 5 && anyBool() {
		p.n++
		t := anyToken()
		p.given(t)
		return t, nil
	}
	p.ended = true
	if anyBool() {
		p.err = anyErr()
	}
	return nil, p.err
}

var onTokenize func(string) *jargon.TokenStream

//jv:stub github.com/clipperhouse/jargon.TokenizeString tokenize
func stubTokenizeString(s string) *jargon.TokenStream { return onTokenize(s) }

//jv:stub github.com/clipperhouse/jargon.Tokenize tokenize
func stubTokenize(r io.Reader) *jargon.TokenStream { return onTokenize(readerOf(r).text) }

// The contractions filter, for any stream.
//
//jv:props C04 C05 C06 C07 C08 C10 C11 C15 C25
//jv:groups newtoken tokenize
//jv:flags nofold
//jv:delay 8
func H_Contractions() {
	table := contractionTable()
	src := &source{}
	var last *Token   // to pass through
	var text string   // expansion that is to be tokenized
	expand := false   // text is still to be tokenized
	var ps *pieces    // the expansion being returned
	var want []*Token // its tokens, read and not yet returned
	src.given = func(t *Token) {
		assert(last == nil && !expand && ps == nil, "C06 C11 C15: a token is dropped, or the source is read ahead of need")
		s := t.String()
		exp, ok := table[s]
		if !ok {
			exp, ok = table[strings.ToLower(s)]
		}
		if ok {
			text, expand = exp, true
		} else {
			last = t
		}
	}
	onTokenize = func(s string) *jargon.TokenStream {
		assert(expand, "C06 C15: a token is expanded that is not a contraction, or twice")
		assert(s == text, "C15: a contraction has another expansion than the table's")
		expand = false
		ps = &pieces{given: func(t *Token) { want = append(want, t) }}
		return jargon.NewTokenStream(ps.next)
	}
	st := contractions.Expand(jargon.NewTokenStream(src.next))
	assert(last == nil && !expand && ps == nil && !src.ended, "C11: the source is read before the first token is asked for")
	for {
		t, err := st.Next()
		if t == nil || err != nil {
			if ps != nil && ps.err != nil {
				assert(err == ps.err && t == nil, "C05: an error is not reported")
				return
			}
			atEnd(src, t, err)
			assert(last == nil && !expand && len(want) == 0, "C06 C15: a token is dropped at the end")
			t2, err2 := st.Next()
			assert(t2 == nil && (err2 == err || src.once), "C05 C06 C08: reading after the end gives another outcome")
			return
		}
		assert(!expand, "C15: a contraction is not expanded")
		if ps != nil {
			assert(ps.err == nil || !ps.ended, "C05: a failure is passed over")
			assert(len(want) > 0, "C06 C15: more tokens are returned than the expansion has")
			isNew(t, want[0].String())
			want = want[1:]
			if len(want) == 0 && ps.ended {
				ps = nil
			}
			continue
		}
		assert(last != nil, "C06 C15: a token is returned twice")
		assert(sameToken(t, last), "C06 C07 C15: a token that is not a contraction is changed")
		last = nil
	}
}
