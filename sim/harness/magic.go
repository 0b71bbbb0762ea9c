package main

import (
	"strings"

	"github.com/akito0107/xsqlparser/dialect"
)

// Library code that treats a special text, name or length in its own way
// mentions it: words and lengths taken from the literals of its sources reach
// such code where any other choice would not.

// magicWords are the literals of the library that are not keywords.
var magicWords = func() (l []string) {
	for _, w := range libWords {
		if _, ok := dialect.Keywords[strings.ToUpper(w)]; !ok {
			l = append(l, w)
		}
	}
	return append(l, "x")
}()

func magicWord(r *Rand) string { return magicWords[r.Intn(len(magicWords))] }

// magicFlags are those that look like options of a command.
var magicFlags = func() (l []string) {
	for _, w := range libWords {
		if len(w) > 2 && w[0] == '-' && (isLetter(w[1]) || w[1] == '-') {
			l = append(l, w)
		}
	}
	return l
}()

func magicFlag(r *Rand) string {
	if len(magicFlags) == 0 || r.P(30) {
		return magicWord(r)
	}
	return magicFlags[r.Intn(len(magicFlags))]
}

// magicAll is made of all of them that are words, for code that looks for more
// than one, and ends like one.
func magicAll(r *Rand) string {
	var l []string
	for _, w := range magicWords {
		word := len(w) > 1
		for i := 0; i < len(w) && word; i++ {
			word = isLetter(w[i]) || w[i] == '_' || w[i] == '-' || w[i] == '.' || w[i] >= '0' && w[i] <= '9'
		}
		if word {
			l = append(l, w)
		}
	}
	sep := r.Pick("/", "/", ",", " ", "=1,", ".", "")
	s := strings.Join(l, sep)
	if r.P(50) {
		s = "/" + s
	}
	// endings
	l = l[:0]
	for _, w := range magicWords {
		if len(w) > 1 && len(w) < 20 && (w[0] == '.' || w[0] == '_' || w[0] == '-' || w[0] == '/' || w[0] == '=') {
			l = append(l, w)
		}
	}
	if len(l) > 0 && r.P(70) {
		s += l[r.Intn(len(l))]
	} else {
		s += sep + magicWord(r)
	}
	return s
}

// magicIdent is such a word as a name.
func magicIdent(r *Rand) string {
	w := magicWord(r)
	for i := 0; i < len(w); i++ {
		if !isLetter(w[i]) && (i == 0 || w[i] < '0' || w[i] > '9') {
			return `"` + strings.ReplaceAll(w, `"`, "") + `"`
		}
	}
	if r.P(30) {
		w = strings.ToUpper(w)
	}
	return w
}

// magicLen is a length of at most top near a number in the library.
func magicLen(r *Rand, top int) int {
	n := 0
	for _, k := range libNumbers {
		if k < top {
			n++
		}
	}
	if n == 0 || r.P(10) {
		return r.Range(1, top)
	}
	k := libNumbers[r.Intn(n)]
	if r.P(50) {
		// the larger ones are fewer
		k = libNumbers[n-1-r.Intn(n)*r.Intn(n)/n]
	}
	k += r.Pick2(-1, 0, 1, 1, 2)
	if k > top {
		k = top
	}
	return k
}
