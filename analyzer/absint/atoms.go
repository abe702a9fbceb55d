package absint

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Atoms.
//
// An abstract string is an ordinary Go string in which some runs stand for
// unknown text. A run ("token") is three letters of the Ogham block,
// optionally preceded by one ASCII letter that is its (unknown) first
// character. Data operations that treat all characters alike act on the
// representation; every *decision* that looks at a token's characters is
// undecided and goes through (*Run).decide.

const oghamFirst, oghamLast = 0x1681, 0x169A
const oghamN = oghamLast - oghamFirst + 1

func isTok(r rune) bool { return r >= oghamFirst && r <= oghamLast }

func hasAtom(s string) bool {
	for {
		i := strings.Index(s, "\xE1\x9A")
		if i < 0 {
			return false
		}
		if r, _ := utf8.DecodeRuneInString(s[i:]); isTok(r) {
			return true
		}
		s = s[i+2:]
	}
}

// HasAtom reports whether s contains unknown text.
func HasAtom(s string) bool { return hasAtom(s) }

// AtomKind says what an atom stands for.
type AtomKind int

const (
	AField   AtomKind = iota // exported Go identifier (struct field)
	AType                    // exported Go identifier (type)
	AKey                     // json key: letters, digits, underscore; not "-" and not empty
	APkg                     // package name or directory: lower-case identifier
	AMod                     // module path element
	AStr                     // free text without quotes, commas, backslashes
	ANum                     // decimal digits
	ADerived                 // result of an operation on atoms
)

type charset [2]uint64

func (c *charset) add(b byte)     { c[b>>6] |= 1 << (b & 63) }
func (c charset) has(b byte) bool { return b < 128 && c[b>>6]&(1<<(b&63)) != 0 }
func (c charset) empty() bool     { return c[0] == 0 && c[1] == 0 }

func mkset(s string) (c charset) {
	for i := 0; i < len(s); i++ {
		if i+2 < len(s) && s[i+1] == '-' {
			for b := s[i]; b <= s[i+2]; b++ {
				c.add(b)
			}
			i += 2
			continue
		}
		c.add(s[i])
	}
	return
}

var (
	csUpper = mkset("A-Z")
	csLower = mkset("a-z")
	csAlpha = mkset("A-Za-z")
	csIdent = mkset("A-Za-z0-9_")
	csDigit = mkset("0-9")
	csText  = func() charset {
		var c charset
		for b := byte(' '); b < 127; b++ {
			if b != '"' && b != '`' && b != ',' && b != '\\' && b != '\'' {
				c.add(b)
			}
		}
		return c
	}()
)

// Atom describes one token.
type Atom struct {
	Kind  AtomKind
	Token string // the Ogham run
	Text  string // full representation (initial letter + token)
	Desc  string
	first charset
	rest  charset
	// what CutPrefix and CutSuffix leave of a text
	cutPre, cutSuf, of string
}

// Atoms is the registry of one analysis run's tokens.
type Atoms struct {
	n     int
	byTok map[string]*Atom
	memo  map[string]*Atom
	// Reserved: names an identifier or key atom is assumed different from.
	Reserved map[string]bool
}

func NewAtoms() *Atoms {
	a := &Atoms{byTok: map[string]*Atom{}, memo: map[string]*Atom{}, Reserved: map[string]bool{}}
	for _, s := range strings.Fields("- Time UUID _test main init") {
		a.Reserved[s] = true
	}
	return a
}

func (as *Atoms) nextTok() string {
	n := as.n
	as.n++
	r := make([]rune, 3)
	for i := 2; i >= 0; i-- {
		r[i] = rune(oghamFirst + n%oghamN)
		n /= oghamN
	}
	return string(r)
}

// New makes a fresh atom; memoised by (kind, desc).
func (as *Atoms) New(kind AtomKind, desc string) *Atom {
	key := fmt.Sprintf("%d:%s", kind, desc)
	if a := as.memo[key]; a != nil {
		return a
	}
	a := &Atom{Kind: kind, Desc: desc, Token: as.nextTok()}
	switch kind {
	case AField:
		a.Text, a.first, a.rest = "F"+a.Token, csUpper, csIdent
	case AType:
		a.Text, a.first, a.rest = "T"+a.Token, csUpper, csIdent
	case AKey:
		a.Text, a.first, a.rest = "k"+a.Token, csAlpha, csIdent
	case APkg:
		a.Text, a.first, a.rest = "p"+a.Token, csLower, csIdent
	case AMod:
		a.Text, a.first, a.rest = "m"+a.Token, csLower, csIdent
	case AStr:
		a.Text, a.first, a.rest = "x"+a.Token, csText, csText
	case ANum:
		a.Text, a.first, a.rest = a.Token, csDigit, csDigit
	default:
		a.Text, a.first, a.rest = a.Token, csIdent, csIdent
	}
	as.memo[key] = a
	as.byTok[a.Token] = a
	return a
}

// Derive makes the atom standing for op applied to text.
func (as *Atoms) Derive(op, text string) *Atom {
	return as.New(ADerived, op+"("+text+")")
}

func (as *Atoms) Get(tok string) *Atom { return as.byTok[tok] }

// seg is a literal piece or one token with its optional first letter.
type seg struct {
	text string
	atom *Atom
}

func (as *Atoms) segs(s string) []seg {
	var out []seg
	lit := func(t string) {
		if t != "" {
			out = append(out, seg{text: t})
		}
	}
	start := 0
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if !isTok(r) {
			i += w
			continue
		}
		// token: up to three runes
		j, n := i, 0
		for j < len(s) && n < 3 {
			r, w := utf8.DecodeRuneInString(s[j:])
			if !isTok(r) {
				break
			}
			j += w
			n++
		}
		b := i
		a := as.byTok[s[i:j]]
		if a != nil && len(a.Text) > len(a.Token) && i > start && isLetter(s[i-1]) {
			b = i - 1
		}
		lit(s[start:b])
		out = append(out, seg{text: s[b:j], atom: a})
		start, i = j, j
	}
	lit(s[start:])
	return out
}

func isLetter(b byte) bool { return b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z' }

// canMatch reports whether text with atoms (segs) can denote exactly lit.
func canMatch(sg []seg, lit string) bool {
	if len(sg) == 0 {
		return lit == ""
	}
	s := sg[0]
	if s.atom == nil && !hasAtom(s.text) {
		if !strings.HasPrefix(lit, s.text) {
			return false
		}
		return canMatch(sg[1:], lit[len(s.text):])
	}
	first, rest := csIdent, csIdent
	if s.atom != nil {
		first, rest = s.atom.first, s.atom.rest
		if len(s.atom.Text) > len(s.atom.Token) && len(s.text) > 0 && isLetter(s.text[0]) && s.text[0] != s.atom.Text[0] {
			// first letter case-mapped
			if s.text[0] >= 'a' && s.text[0] <= 'z' {
				first = csLower
			} else {
				first = csUpper
			}
		}
		if len(s.text) == len(s.atom.Token) && len(s.atom.Text) > len(s.atom.Token) {
			first = rest // the first letter was cut off
		}
	}
	for k := 1; k <= len(lit); k++ {
		b := lit[k-1]
		if k == 1 && !first.has(b) || k > 1 && !rest.has(b) {
			return false
		}
		if canMatch(sg[1:], lit[k:]) {
			return true
		}
	}
	return false
}

// canPrefix reports whether text (segs) can start with lit.
func canPrefix(sg []seg, lit string) bool {
	if lit == "" {
		return true
	}
	if len(sg) == 0 {
		return false
	}
	s := sg[0]
	if s.atom == nil && !hasAtom(s.text) {
		if len(lit) <= len(s.text) {
			return strings.HasPrefix(s.text, lit)
		}
		if !strings.HasPrefix(lit, s.text) {
			return false
		}
		return canPrefix(sg[1:], lit[len(s.text):])
	}
	first, rest := csIdent, csIdent
	if s.atom != nil {
		first, rest = s.atom.first, s.atom.rest
	}
	for k := 1; k <= len(lit); k++ {
		b := lit[k-1]
		if k == 1 && !first.has(b) || k > 1 && !rest.has(b) {
			return false
		}
		if k == len(lit) || canPrefix(sg[1:], lit[k:]) {
			return true
		}
	}
	return false
}

func canSuffix(sg []seg, lit string) bool {
	if lit == "" {
		return true
	}
	if len(sg) == 0 {
		return false
	}
	s := sg[len(sg)-1]
	if s.atom == nil && !hasAtom(s.text) {
		if len(lit) <= len(s.text) {
			return strings.HasSuffix(s.text, lit)
		}
		if !strings.HasSuffix(lit, s.text) {
			return false
		}
		return canSuffix(sg[:len(sg)-1], lit[:len(lit)-len(s.text)])
	}
	first, rest := csIdent, csIdent
	if s.atom != nil {
		first, rest = s.atom.first, s.atom.rest
	}
	for k := 1; k <= len(lit); k++ {
		b := lit[len(lit)-k]
		if !rest.has(b) && !first.has(b) {
			return false
		}
		if k == len(lit) || canSuffix(sg[:len(sg)-1], lit[:len(lit)-k]) {
			return true
		}
	}
	return false
}

// allIdent reports whether every byte of s could be part of an atom.
func allAtomChars(s string) bool {
	for i := 0; i < len(s); i++ {
		if !csIdent.has(s[i]) {
			return false
		}
	}
	return true
}

// All lists the registered atoms.
func (a *Atoms) All() []*Atom {
	var out []*Atom
	for _, t := range a.byTok {
		out = append(out, t)
	}
	return out
}

// Derived reports whether text contains an atom derived by op (directly or through others).
func (as *Atoms) Derived(text, op string) bool {
	for _, s := range as.segs(text) {
		if s.atom == nil || s.atom.Kind != ADerived {
			continue
		}
		if strings.HasPrefix(s.atom.Desc, op+"(") {
			return true
		}
		if i := strings.IndexByte(s.atom.Desc, '('); i >= 0 && s.atom.Desc[i:] != text && as.Derived(s.atom.Desc[i:], op) {
			return true
		}
	}
	return false
}
