package main

import (
	"math/big"
	"sort"
)

// The numeric part of the abstract domain: conjunctions of linear constraints
// (l >= 0) over integer atoms. Entailment is decided over the rationals by the
// simplex method below (the usual decision procedure of a polyhedra domain).

// lpMin minimizes obj subject to cs (each >= 0). It returns (min, true, feasible).
// If unbounded, bounded is false. Atoms are unrestricted in sign.
func lpMin(cs []*Lin, obj *Lin) (min *big.Rat, bounded, feasible bool) {
	// collect atoms
	idx := map[string]int{}
	addAtoms := func(l *Lin) {
		for _, t := range l.T {
			k := t.V.key()
			if _, ok := idx[k]; !ok {
				idx[k] = len(idx)
			}
		}
	}
	for _, c := range cs {
		addAtoms(c)
	}
	addAtoms(obj)
	n := len(idx)
	// Determine which atoms have an explicit x >= k bound; shift them to be nonnegative.
	lb := make([]*int64, n)
	used := make([]bool, len(cs))
	for ci, c := range cs {
		if len(c.T) == 1 && c.T[0].C == 1 {
			i := idx[c.T[0].V.key()]
			k := -c.K
			if lb[i] == nil || *lb[i] < k {
				lb[i] = &k
			}
			used[ci] = true
		}
	}
	// columns: each atom i with lb: one column; free: two columns
	col := make([]int, n)
	ncol := 0
	for i := 0; i < n; i++ {
		col[i] = ncol
		if lb[i] != nil {
			ncol++
		} else {
			ncol += 2
		}
	}
	// row for constraint: sum a x + K >= 0  with x_i = lb + x'  or x+ - x-
	// => -sum a x' <= K'   with slack
	type row struct {
		a []int64
		b int64
	}
	mkrow := func(l *Lin) row {
		r := row{make([]int64, ncol), l.K}
		for _, t := range l.T {
			i := idx[t.V.key()]
			if lb[i] != nil {
				r.a[col[i]] += t.C
				r.b += t.C * *lb[i]
			} else {
				r.a[col[i]] += t.C
				r.a[col[i]+1] -= t.C
			}
		}
		return r
	}
	var rows []row
	for ci, c := range cs {
		if used[ci] {
			continue
		}
		r := mkrow(c)
		allz := true
		for _, v := range r.a {
			if v != 0 {
				allz = false
				break
			}
		}
		if allz {
			if r.b < 0 {
				return nil, false, false
			}
			continue
		}
		rows = append(rows, r)
	}
	o := mkrow(obj)
	m := len(rows)
	// tableau: variables: ncol structural, m slacks, 1 artificial (index ncol+m) for phase 1
	// constraint: -a x + s - x0 = b
	tot := ncol + m + 1
	T := make([][]*big.Rat, m)
	basis := make([]int, m)
	for i, r := range rows {
		T[i] = make([]*big.Rat, tot+1)
		for j := range T[i] {
			T[i][j] = new(big.Rat)
		}
		for j, v := range r.a {
			T[i][j].SetInt64(-v)
		}
		T[i][ncol+i].SetInt64(1)
		T[i][ncol+m].SetInt64(-1)
		T[i][tot].SetInt64(r.b)
		basis[i] = ncol + i
	}
	pivot := func(z []*big.Rat, pr, pc int) {
		pv := new(big.Rat).Inv(T[pr][pc])
		for j := range T[pr] {
			if T[pr][j].Sign() != 0 {
				T[pr][j].Mul(T[pr][j], pv)
			}
		}
		tmp := new(big.Rat)
		elim := func(w []*big.Rat) {
			if w[pc].Sign() == 0 {
				return
			}
			f := new(big.Rat).Set(w[pc])
			for j := range w {
				if T[pr][j].Sign() != 0 {
					tmp.Mul(f, T[pr][j])
					w[j].Sub(w[j], tmp)
				}
			}
		}
		for i := range T {
			if i != pr {
				elim(T[i])
			}
		}
		elim(z)
		basis[pr] = pc
	}
	// minimize z = sum z_j x_j + z0 ; z row stored as coefficients, z[tot] = -value
	run := func(z []*big.Rat, maxc int) bool {
		for {
			pc := -1
			for j := 0; j < maxc; j++ {
				if z[j].Sign() < 0 {
					pc = j
					break
				}
			}
			if pc < 0 {
				return true
			}
			pr := -1
			var best *big.Rat
			for i := range T {
				if T[i][pc].Sign() > 0 {
					q := new(big.Rat).Quo(T[i][tot], T[i][pc])
					if pr < 0 || q.Cmp(best) < 0 || (q.Cmp(best) == 0 && basis[i] < basis[pr]) {
						pr, best = i, q
					}
				}
			}
			if pr < 0 {
				return false
			}
			pivot(z, pr, pc)
		}
	}
	newz := func() []*big.Rat {
		z := make([]*big.Rat, tot+1)
		for j := range z {
			z[j] = new(big.Rat)
		}
		return z
	}
	// phase 1
	neg, ni := false, -1
	for i := range T {
		if T[i][tot].Sign() < 0 && (ni < 0 || T[i][tot].Cmp(T[ni][tot]) < 0) {
			neg, ni = true, i
		}
	}
	if neg {
		z := newz()
		z[ncol+m].SetInt64(1)
		pivot(z, ni, ncol+m)
		run(z, tot)
		// value = -z[tot]
		if z[tot].Sign() != 0 {
			return nil, false, false
		}
		// drive artificial out of basis
		for i := range basis {
			if basis[i] == ncol+m {
				for j := 0; j < ncol+m; j++ {
					if T[i][j].Sign() != 0 {
						pivot(z, i, j)
						break
					}
				}
			}
		}
		for i := range T {
			T[i][ncol+m].SetInt64(0)
		}
	}
	// phase 2
	z := newz()
	for j, v := range o.a {
		z[j].SetInt64(v)
	}
	for i := range T {
		if z[basis[i]].Sign() != 0 {
			f := new(big.Rat).Set(z[basis[i]])
			tmp := new(big.Rat)
			for j := range z {
				tmp.Mul(f, T[i][j])
				z[j].Sub(z[j], tmp)
			}
		}
	}
	if !run(z, ncol+m) {
		return nil, false, true
	}
	v := new(big.Rat).Neg(z[tot])
	v.Add(v, new(big.Rat).SetInt64(o.b))
	return v, true, true
}

// relevant returns the constraints connected to l through shared atoms.
func relevant(cs []*Lin, l *Lin) []*Lin {
	in := map[string]bool{}
	for _, t := range l.T {
		in[t.V.key()] = true
	}
	taken := make([]bool, len(cs))
	var r []*Lin
	for {
		ch := false
		for i, c := range cs {
			if taken[i] {
				continue
			}
			hit := false
			for _, t := range c.T {
				if in[t.V.key()] {
					hit = true
					break
				}
			}
			if hit {
				taken[i] = true
				r = append(r, c)
				for _, t := range c.T {
					k := t.V.key()
					if !in[k] {
						in[k] = true
						ch = true
					}
				}
			}
		}
		if !ch {
			return r
		}
	}
}

var lpCache = map[string]int{}
var lpCalls int

// entailsGe0 tells whether cs imply l >= 0 (over the integers, by rational relaxation).
func entailsGe0(cs []*Lin, l *Lin) bool {
	if len(l.T) == 0 {
		return l.K >= 0
	}
	for _, c := range cs {
		// syntactic: c <= l
		if len(c.T) == len(l.T) && c.K <= l.K {
			same := true
			for i := range c.T {
				if c.T[i].C != l.T[i].C || c.T[i].V.key() != l.T[i].V.key() {
					same = false
					break
				}
			}
			if same {
				return true
			}
		}
	}
	rel := relevant(cs, l)
	if len(rel) == 0 {
		return false
	}
	ks := make([]string, len(rel))
	for i, c := range rel {
		ks[i] = c.key()
	}
	sort.Strings(ks)
	ck := l.key()
	for _, k := range ks {
		ck += "|" + k
	}
	if v, ok := lpCache[ck]; ok {
		return v == 1
	}
	lpCalls++
	min, bounded, feas := lpMin(rel, l)
	res := false
	if !feas {
		res = true
	} else if bounded {
		// integers: l >= ceil(min); l > -1 suffices
		res = min.Cmp(big.NewRat(-1, 1)) > 0
	}
	if len(lpCache) > 200000 {
		lpCache = map[string]int{}
	}
	if res {
		lpCache[ck] = 1
	} else {
		lpCache[ck] = 0
	}
	return res
}

// lowerBound returns the best constant c with l >= c.
func lowerBound(cs []*Lin, l *Lin) (int64, bool) {
	if len(l.T) == 0 {
		return l.K, true
	}
	rel := relevant(cs, l)
	min, bounded, feas := lpMin(rel, l)
	if !feas || !bounded {
		return 0, false
	}
	// ceil
	q := new(big.Int)
	rm := new(big.Int)
	q.DivMod(min.Num(), min.Denom(), rm)
	if rm.Sign() != 0 {
		q.Add(q, big.NewInt(1))
	}
	if !q.IsInt64() {
		return 0, false
	}
	return q.Int64(), true
}

// ---- affine hulls (Karr's domain), in generator form over m slots

type affine struct {
	p    []*big.Rat   // a point
	dirs [][]*big.Rat // independent directions (row echelon)
}

func ratVec(m int) []*big.Rat {
	v := make([]*big.Rat, m)
	for i := range v {
		v[i] = new(big.Rat)
	}
	return v
}

// addDir adds a direction, keeping reduced row echelon form. Reports whether it was new.
func (a *affine) addDir(d []*big.Rat) bool {
	v := ratVec(len(d))
	for i := range d {
		v[i].Set(d[i])
	}
	tmp := new(big.Rat)
	for _, e := range a.dirs {
		l := lead(e)
		if v[l].Sign() != 0 {
			f := new(big.Rat).Quo(v[l], e[l])
			for j := range v {
				tmp.Mul(f, e[j])
				v[j].Sub(v[j], tmp)
			}
		}
	}
	l := lead(v)
	if l < 0 {
		return false
	}
	inv := new(big.Rat).Inv(v[l])
	for j := range v {
		v[j].Mul(v[j], inv)
	}
	for _, e := range a.dirs {
		if e[l].Sign() != 0 {
			f := new(big.Rat).Set(e[l])
			for j := range v {
				tmp.Mul(f, v[j])
				e[j].Sub(e[j], tmp)
			}
		}
	}
	a.dirs = append(a.dirs, v)
	return true
}
func lead(v []*big.Rat) int {
	for i, x := range v {
		if x.Sign() != 0 {
			return i
		}
	}
	return -1
}
func (a *affine) clone() *affine {
	b := &affine{p: a.p}
	for _, d := range a.dirs {
		v := ratVec(len(d))
		for i := range d {
			v[i].Set(d[i])
		}
		b.dirs = append(b.dirs, v)
	}
	return b
}

// affineOf gives the set of values of the slots, as all atoms range freely.
func affineOf(slots []Val) *affine {
	m := len(slots)
	a := &affine{p: ratVec(m)}
	cols := map[string][]*big.Rat{}
	var order []string
	for i, s := range slots {
		l := toLin(s)
		a.p[i].SetInt64(l.K)
		for _, t := range l.T {
			k := t.V.key()
			if cols[k] == nil {
				cols[k] = ratVec(m)
				order = append(order, k)
			}
			cols[k][i].SetInt64(t.C)
		}
	}
	for _, k := range order {
		a.addDir(cols[k])
	}
	return a
}

// join with b; reports whether it grew.
func (a *affine) join(b *affine) bool {
	grew := false
	for _, d := range b.dirs {
		if a.addDir(d) {
			grew = true
		}
	}
	v := ratVec(len(a.p))
	for i := range v {
		v[i].Sub(b.p[i], a.p[i])
	}
	if a.addDir(v) {
		grew = true
	}
	return grew
}

// solve expresses each slot by the leading slots of the directions (the free ones):
// slot_i = const_i + sum coef_ij * slot_{free_j}.
func (a *affine) solve() (free []int, konst []*big.Rat, coef [][]*big.Rat) {
	m := len(a.p)
	konst = ratVec(m)
	coef = make([][]*big.Rat, m)
	for _, d := range a.dirs {
		free = append(free, lead(d))
	}
	for i := 0; i < m; i++ {
		coef[i] = ratVec(len(a.dirs))
		konst[i].Set(a.p[i])
		for j, d := range a.dirs {
			coef[i][j].Set(d[i])
			t := new(big.Rat).Mul(d[i], a.p[free[j]])
			konst[i].Sub(konst[i], t)
		}
	}
	return
}
