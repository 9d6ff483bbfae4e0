package kit

import (
	"encoding/json"
	"os"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sonirico/visigoth"
)

// Dict holds constants taken from the code under test, so that inputs that
// matter to it (special words, sizes around its limits) turn up.
type Dict struct {
	Strings map[string][]string `json:"strings"`
	Ints    []int64             `json:"ints"`
	Runes   []string            `json:"runes"`

	Durations []int64 `json:"durations"`

	words []string // small files' strings, cut into words as well
	sizes []int
}

// LoadDict reads dict.json; a missing file gives an empty dictionary.
func LoadDict(path string) *Dict {
	d := &Dict{}
	if b, err := os.ReadFile(path); err == nil {
		_ = json.Unmarshal(b, d)
	}
	files := make([]string, 0, len(d.Strings))
	for f := range d.Strings {
		files = append(files, f)
	}
	sort.Strings(files)
	seen := map[string]bool{}
	add := func(s string) {
		if s != "" && !seen[s] {
			seen[s] = true
			d.words = append(d.words, s)
		}
	}
	for _, f := range files {
		if len(d.Strings[f]) > 100 { // word lists are sampled by other means
			continue
		}
		for _, s := range d.Strings[f] {
			add(s)
			for _, w := range strings.FieldsFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsNumber(r) }) {
				add(w)
			}
		}
	}
	for _, s := range d.Runes {
		add(s)
	}
	base := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 48, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097}
	m := map[int]bool{}
	for _, b := range base {
		m[b] = true
	}
	for _, v := range d.Ints {
		if v > 3 && v < 200000 {
			for _, w := range []int{int(v) - 1, int(v), int(v) + 1} {
				m[w] = true
			}
		}
	}
	for k := range m {
		d.sizes = append(d.sizes, k)
	}
	sort.Ints(d.sizes)
	return d
}

// NewSizes lists sizes around the constants of the code under test that lie in
// (lo, hi].
func (d *Dict) NewSizes(lo, hi int) []int {
	var out []int
	seen := map[int]bool{}
	for _, v := range d.Ints {
		for _, w := range []int{int(v) - 1, int(v), int(v) + 1} {
			if w > lo && w <= hi && !seen[w] {
				seen[w] = true
				out = append(out, w)
			}
		}
	}
	sort.Ints(out)
	return out
}

// Size draws a size in [lo, hi], small or on a boundary.
func (r *Rand) Size(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	if r.P(0.5) {
		n := lo + r.IntN(min(hi-lo+1, 9))
		return n
	}
	i := sort.SearchInts(r.D.sizes, lo)
	j := sort.SearchInts(r.D.sizes, hi+1)
	if i >= j {
		return lo + r.IntN(hi-lo+1)
	}
	if r.P(0.15) {
		return lo + r.IntN(hi-lo+1)
	}
	return r.D.sizes[i+r.IntN(j-i)]
}

// Spanish is a vocabulary whose stems collide in interesting ways.
var Spanish = strings.Fields(`curso cursos programación programacion programar programador programadores
 canción canciones niño niña niños niñas árbol árboles corazón corazones rápido rápidamente feliz felicidad
 nación nacional nacionalidad internacional lógica lógico biología tecnología tecnologías idea ideas
 pingüino pingüinos vergüenza averigüe jugar jugando juego juegos comer comiendo comida comidas decir diciendo
 haciéndolo dárselo dándoselo leyendo leyéndolo cantaríamos cantábamos cantaron cantó casa casas cosa cosas
 león leones inglés inglesa ingleses francés verdad verdades útil inútil utilidad móvil móviles huevos
 buenísimo grandísimo mente lentamente abuso absorbente adherencia viviendo vivimos vivirán oír oído
 añadir añade año años español española españoles tren trenes sol soles luz luces voz voces gato gata gatos
 perro perra perros mar mares pan panes rey reyes ley leyes buey bueyes java golang php python rust web frontend
 aéreo caótico héroe oeste oasis aula aulas euro euros ciudad ciudades`)

// StopList is the code's own Spanish stop-word list, sorted.
var StopList = func() []string {
	var l []string
	for w := range visigoth.SpanishStopWords {
		l = append(l, w)
	}
	sort.Strings(l)
	return l
}()

var odd = []string{"\xff", "\xc3", "\xe2\x82", "\x00", "\n", "\t", "\r\n", "\u2028", "\ufeff", "\ufffd", "é", "́", "ß", "İ", "ı", "Ǆ", "ǅ", "ς", "Σ", "K", "日本", "語", "٣", "½", "²", "Ⅷ", "𝔸", "𐐀", "🙂", "ª", "_", "-", "'", "\"", "\\", "/", "<", "&", "%s", "{", "}", "ﬁ", "ك"}

// Token draws a word made of letters and digits only.
func (r *Rand) Token() string {
	switch x := r.IntN(20); {
	case x < 8:
		return "w" + itoa(r.IntN(12))
	case x < 12:
		return Pick(r, Spanish)
	case x < 13:
		return Pick(r, StopList)
	case x < 14:
		return itoa(r.IntN(1000))
	case x < 15:
		return string(rune('a' + r.IntN(26)))
	case x < 16:
		return Pick(r, []string{"日本", "ελλάς", "ΣΊΣΥΦΟΣ", "straße", "İstanbul", "𐐀𐐁", "ключ", "ﬁn", "½", "٣٤", "Ⅷ", "ǅ", "ªº", "ñandú", "ÁRBOL", "Niño"})
	case x < 17:
		return r.Case(Pick(r, Spanish))
	case x < 18:
		return strings.Repeat(string(rune('a'+r.IntN(5))), 1+r.Size(1, 300))
	default:
		for range 5 {
			if len(r.D.words) == 0 {
				break
			}
			w := strings.Map(func(c rune) rune {
				if unicode.IsLetter(c) || unicode.IsNumber(c) {
					return c
				}
				return -1
			}, Pick(r, r.D.words))
			if w != "" {
				return w
			}
		}
		return "x" + itoa(r.IntN(4))
	}
}

// Case varies the case of a Latin word.
func (r *Rand) Case(s string) string {
	switch r.IntN(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		rs := []rune(s)
		rs[0] = unicode.ToUpper(rs[0])
		return string(rs)
	case 2:
		rs := []rune(s)
		for i := range rs {
			if r.P(0.5) {
				rs[i] = unicode.ToUpper(rs[i])
			}
		}
		return string(rs)
	}
	return s
}

// Vocab draws n words.
func (r *Rand) Vocab(n int) []string {
	v := make([]string, n)
	for i := range v {
		v[i] = r.Token()
	}
	if n > 1 && r.P(0.12) {
		v[0], v[1] = r.Twins()
	}
	return v
}

// Twins draws two different words of one digest.
func (r *Rand) Twins() (string, string) {
	k := r.IntN(len(Twins))
	a, b := Twins[k][0], Twins[k][1]
	if r.P(0.4) {
		t := strings.Repeat("x", r.Size(0, 80)) + itoa(r.IntN(10))
		a, b = a+t, b+t
		if k < 6 && r.P(0.3) {
			a, b = t+a, t+b
		}
	}
	return a, b
}

// Sep draws a separator with no letter or number in it.
func (r *Rand) Sep() string {
	if r.P(0.6) {
		return " "
	}
	return Pick(r, []string{"  ", ", ", "\n", "\t", " - ", ";", "...", " ¡", "?! ", "\r\n", "/", "(", ") ", "\"", " € ", "—", "_"})
}

// Text joins words from a vocabulary.
func (r *Rand) Text(v []string, n int, spacesOnly bool) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			if spacesOnly {
				b.WriteByte(' ')
			} else {
				b.WriteString(r.Sep())
			}
		}
		// Zipf-ish: early words are common
		k := r.IntN(len(v))
		if r.P(0.5) {
			k = r.IntN(k + 1)
		}
		b.WriteString(v[k])
	}
	return b.String()
}

// Bytes draws an arbitrary byte string, valid UTF-8 or not.
func (r *Rand) Bytes(maxParts int) string {
	var b strings.Builder
	for n := r.Size(0, maxParts); n > 0; n-- {
		switch r.IntN(8) {
		case 0:
			b.WriteByte(byte(r.IntN(256)))
		case 1, 2:
			b.WriteString(Pick(r, odd))
		case 3:
			c := rune(r.IntN(0x110000))
			if utf8.ValidRune(c) {
				b.WriteRune(c)
			}
		case 4:
			if len(r.D.words) > 0 {
				b.WriteString(Pick(r, r.D.words))
			}
		case 5:
			b.WriteString(r.Sep())
		default:
			b.WriteString(r.Token())
		}
	}
	return b.String()
}

// Valid draws an arbitrary valid UTF-8 string.
func (r *Rand) Valid(maxParts int) string { return strings.ToValidUTF8(r.Bytes(maxParts), "¿") }

// families are different names that code which tidies names up takes for one.
var families = [][]string{
	{"a/b", "a//b", "a/./b", "./a/b", "a/b/", "/a/b", "a/c/../b", "a\\b"},
	{"7", "07", "+7", "7.0", "0x7", "7 ", "٧", "007"},
	{"a b", "a%20b", "a+b", "a  b", "a\tb", "a_b", "a-b", "ab"},
	{"a", " a", "a ", "a\n", "\ta", "a\u00a0", "a\u200b", "\ufeffa"},
	{"a", "A", "ª", "á", "a\u0301", "à", "ａ", "Á"},
	{"k", "K", "\u212a", "s", "S", "\u017f", "ß", "ss"},
	{"é", "e\u0301", "e", "É", "E", "\xe9", "è", "E\u0301"},
	{"\xff", "\xfe", "\ufffd", "\xff\xff", "\xc3", "?", "\xed\xa0\x80", ""},
	{"a", "a\x00", "a\x00b", "a\x00c", "\x00", "\x00a", "", "b"},
	{"a", "\"a\"", "'a'", "`a`", "(a)", "[a]", "<a>", "\\a"},
	{"a", "a.", ".a", "..", ".", "a..", "a.b", "a.json"},
	{"*", "?", "a*", "a?", "%", "a%", "_", "_all"},
	{"a,b", "a, b", "b,a", "a;b", "a|b", "a:b", "a,b,", ",a,b"},
	{"a", "aa", "aaa", "aaaa", "aaaaa", "aaaaaa", "aaaaaaa", "aaaaaaaa"},
	{"a1", "a2", "a10", "a01", "a1.0", "1a", "a", "a 1"},
	{"true", "True", "1", "yes", "nil", "null", "0", "false"},
	{"ı", "i", "I", "İ", "i\u0307", "Ǆ", "ǅ", "ǆ"},
	{"σ", "ς", "Σ", "ς\u0301", "ﬁ", "fi", "FI", "ﬃ"},
}

// Lookalikes draws some names of one family.
func (r *Rand) Lookalikes() []string {
	f := Pick(r, families)
	at := r.IntN(len(f))
	out := make([]string, 0, 6)
	for k := range 4 + r.IntN(3) {
		out = append(out, f[(at+k)%len(f)])
	}
	if r.P(0.2) {
		t := Pick(r, []string{"x", "índice", strings.Repeat("long", 30)})
		for k := range out {
			out[k] += t
		}
	}
	return out
}

// Name draws a document, index or alias name out of a small universe of u plain
// ones plus odd ones.
func (r *Rand) Name(u int) string {
	switch x := r.IntN(40); {
	case x == 0:
		return ""
	case x == 1:
		return r.Bytes(4)
	case x == 2 && len(r.D.words) > 0:
		return Pick(r, r.D.words)
	case x == 3:
		return strings.Repeat("n", r.Size(1, 300))
	case x == 4:
		return "a/b:" + itoa(r.IntN(u))
	case x == 5:
		return Pick(r, families[u%len(families)])
	}
	return "d" + itoa(r.IntN(u))
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	neg := i < 0
	if neg {
		i = -i
	}
	var b [20]byte
	p := len(b)
	for i > 0 {
		p--
		b[p] = byte('0' + i%10)
		i /= 10
	}
	if neg {
		p--
		b[p] = '-'
	}
	return string(b[p:])
}

// Itoa formats a small integer.
func Itoa(i int) string { return itoa(i) }

// Words gives the dictionary words.
func (d *Dict) Words() []string { return d.words }
