package zz_jv_harness

import (
	"strings"
	"unicode/utf8"
)

// Functions of the standard library that call back, as they are documented.

//jv:stub strings.IndexFunc std
func stubIndexFunc(s string, f func(rune) bool) int {
	for i, r := range s {
		if f(r) {
			return i
		}
	}
	return -1
}

//jv:stub strings.ContainsFunc std
func stubContainsFunc(s string, f func(rune) bool) bool {
	for _, r := range s {
		if f(r) {
			return true
		}
	}
	return false
}

//jv:stub bytes.IndexFunc std
func stubBytesIndexFunc(s []byte, f func(rune) bool) int { return stubIndexFunc(string(s), f) }

//jv:stub bytes.ContainsFunc std
func stubBytesContainsFunc(s []byte, f func(rune) bool) bool { return stubContainsFunc(string(s), f) }

//jv:stub strings.Map std
func stubStringsMap(f func(rune) rune, s string) string {
	var b strings.Builder
	for _, r := range s {
		if m := f(r); m >= 0 {
			b.WriteRune(m)
		}
	}
	return b.String()
}

//jv:stub strings.TrimLeftFunc std
func stubTrimLeftFunc(s string, f func(rune) bool) string {
	for i, r := range s {
		if !f(r) {
			return s[i:]
		}
	}
	return ""
}

//jv:stub strings.TrimRightFunc std
func stubTrimRightFunc(s string, f func(rune) bool) string {
	for s != "" {
		r, n := utf8.DecodeLastRuneInString(s)
		if !f(r) {
			break
		}
		s = s[:len(s)-n]
	}
	return s
}

//jv:stub strings.TrimFunc std
func stubTrimFunc(s string, f func(rune) bool) string {
	return stubTrimRightFunc(stubTrimLeftFunc(s, f), f)
}
