package zz_jv_harness

import (
	"github.com/clipperhouse/jargon/tokenqueue"
)

// checkQueue compares a queue with the sequence it must hold.
func checkQueue(q *tokenqueue.TokenQueue, want []*Token) {
	assert(q.Len() == len(want), "C23: the length of a queue is wrong")
	assert(q.Any() == (len(want) > 0), "C23: Any disagrees with the length of the queue")
	assert(sameSeq(q.Tokens, want), "C23: a queue does not hold the tokens pushed and not removed, in order")
}

type queues struct {
	a, b   *tokenqueue.TokenQueue
	ga, gb []*Token
}

func (q *queues) check() {
	checkQueue(q.a, q.ga)
	checkQueue(q.b, q.gb)
}

// step is any operation on the queues.
func (q *queues) step() {
	switch choose(11) {
	case 0:
		t := anyToken()
		q.a.Push(t)
		q.ga = append(q.ga, t)
	case 1:
		ts := anyTokens()
		q.a.Push(ts...)
		q.ga = append(q.ga, ts...)
	case 2:
		q.a.Push()
	case 3:
		assume(len(q.ga) > 0)
		t := q.a.Pop()
		assert(sameTok(t, q.ga[0]), "C23: Pop does not return the front of the queue")
		q.ga = q.ga[1:]
	case 4:
		n := anyInt()
		assume(n >= 0 && n <= len(q.ga))
		q.a.Drop(n)
		q.ga = q.ga[n:]
	case 5:
		q.a.Clear()
		q.ga = nil
	case 6:
		assume(len(q.ga) > 0)
		q.a.PopTo(q.b)
		q.gb = append(q.gb, q.ga[0])
		q.ga = q.ga[1:]
	case 7:
		q.a.FlushTo(q.b)
		q.gb = append(q.gb, q.ga...)
		q.ga = nil
	case 8:
		t := anyToken()
		q.b.Push(t)
		q.gb = append(q.gb, t)
	case 9:
		assume(len(q.gb) > 0)
		t := q.b.Pop()
		assert(sameTok(t, q.gb[0]), "C23: Pop does not return the front of the queue")
		q.gb = q.gb[1:]
	case 10:
		q.b.Clear()
		q.gb = nil
	}
	q.check()
}

// Any operations, in any order, on two queues with any contents (of the same slice, or not).
//
//jv:props C23 C25
//jv:flags nofold
func H_Queue() {
	q := &queues{}
	switch choose(3) {
	case 0:
		s := anyTokens()
		q.a = tokenqueue.New(s...)
		q.b = tokenqueue.New(s...)
		q.ga = append(q.ga, s...)
		q.gb = append(q.gb, s...)
	case 1:
		s, t := anyTokens(), anyTokens()
		q.a = tokenqueue.New(s...)
		q.b = tokenqueue.New(t...)
		q.ga = append(q.ga, s...)
		q.gb = append(q.gb, t...)
	default:
		q.a = tokenqueue.New()
		q.b = &tokenqueue.TokenQueue{}
	}
	q.check()
	q.step()
	q.step()
	q.step()
}

// Any history of operations on one queue, starting with an empty one.
//
//jv:props C23 C25
func H_QueueHistory() {
	var q *tokenqueue.TokenQueue
	if choose(2) == 0 {
		q = tokenqueue.New()
	} else {
		q = &tokenqueue.TokenQueue{}
	}
	var g []*Token
	for {
		checkQueue(q, g)
		switch choose(5) {
		case 0:
			t := anyToken()
			q.Push(t)
			g = append(g, t)
		case 1:
			assume(len(g) > 0)
			t := q.Pop()
			assert(sameTok(t, g[0]), "C23: Pop does not return the front of the queue")
			g = g[1:]
		case 2:
			n := anyInt()
			assume(n >= 0 && n <= len(g))
			q.Drop(n)
			g = g[n:]
		case 3:
			q.Clear()
			g = nil
		case 4:
			d := tokenqueue.New()
			q.FlushTo(d)
			assert(sameSeq(d.Tokens, g), "C23: FlushTo does not move all tokens in order")
			d.FlushTo(q)
			assert(d.Len() == 0, "C23: FlushTo leaves tokens behind")
		}
	}
}
