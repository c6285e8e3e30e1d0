//go:build verif

package wordtokeniser

import "strings"

// Specification of the words of a name (property C10).

func vcPieces(name string, words []string) bool {
	return vcForall(0, len(words), func(i int) bool { return strings.Contains(name, words[i]) })
}

//vc:contract isNotToken props=C10
func vc_isNotToken(r rune) {
	n := isNotToken(r)
	vcEnsures("underscore", n == (r == '_'))
}

// casing never fails (no slice of the name is out of its range), and its words are pieces of
// the name.
//
//vc:contract casing props=C10
func vc_casing(name string) {
	words := casing(name)
	vcEnsures("pieces", vcPieces(name, words))
	vcEnsures("own", vcFreshSlice(words))
}

//vc:loop casing 0
func vl_casing(name string, words []string, start, prev, lastClass int, markNextAsStart bool, vcI int) {
	vcInv("new word", vcImp(markNextAsStart, lastClass == 0))
	vcInv("position", vcI <= len(name))
	vcInv("start", 0 <= start && start <= vcI)
	vcInv("prev", 0 <= prev && prev <= vcI)
	vcInv("word", vcImp(lastClass != 0, start <= prev))
	vcInv("pieces", vcPieces(name, words))
	vcInv("own", vcFreshSlice(words))
}

// removeDup keeps the first of every word, in order.
//
//vc:contract removeDup props=C10
func vc_removeDup(in []string) {
	out := removeDup(in)
	vcEnsures("no word twice", vcForall(0, len(out), func(i int) bool { return vcForall(0, i, func(j int) bool { return out[i] != out[j] }) }))
	vcEnsures("words of in", vcForall(0, len(out), func(i int) bool { return vcExists(0, len(in), func(j int) bool { return out[i] == in[j] }) }))
	vcEnsures("every word of in", vcForall(0, len(in), func(i int) bool { return vcExists(0, len(out), func(j int) bool { return in[i] == out[j] }) }))
	vcEnsures("the first first", vcImp(len(in) > 0, len(out) > 0 && out[0] == in[0]))
	vcEnsures("own", vcFreshSlice(out))
}

//vc:loop removeDup 0
//vc:hide words of in = every word of in, seen are words of in, out are seen, no word twice, seen are out
//vc:hide every word of in = words of in, out are seen, no word twice, seen are out
//vc:hide seen are words of in = words of in, every word of in, no word twice
func vl_removeDup(in, out []string, set map[string]void, vcI int) {
	vcInv("seen are out", vcForall(0, vcI, func(i int) bool { return vcHas(set, in[i]) }))
	vcInv("out are seen", vcForall(0, len(out), func(i int) bool { return vcHas(set, out[i]) }))
	vcInv("seen are words of in", vcForallKey(set, func(w string) bool {
		return vcImp(vcHas(set, w), vcExists(0, len(out), func(j int) bool { return w == out[j] }))
	}))
	vcInv("no word twice", vcForall(0, len(out), func(i int) bool { return vcForall(0, i, func(j int) bool { return out[i] != out[j] }) }))
	vcInv("words of in", vcForall(0, len(out), func(i int) bool { return vcExists(0, vcI, func(j int) bool { return out[i] == in[j] }) }))
	vcInv("every word of in", vcForall(0, vcI, func(i int) bool { return vcExists(0, len(out), func(j int) bool { return in[i] == out[j] }) }))
	vcInv("the first first", vcImp(vcI > 0, len(out) > 0 && out[0] == in[0]))
	vcInv("own", vcFreshSlice(out))
}

//vc:contract Tokenise props=C10
//vc:hide pieces = every word of in, no word twice
func vc_Tokenise(name string) {
	vcAssert("a name is a piece of itself", strings.Contains(name, name))
	words := Tokenise(name)
	vcEnsures("the whole name first", len(words) > 0 && words[0] == name)
	vcEnsures("pieces", vcPieces(name, words))
	vcEnsures("no word twice", vcForall(0, len(words), func(i int) bool { return vcForall(0, i, func(j int) bool { return words[i] != words[j] }) }))
}
