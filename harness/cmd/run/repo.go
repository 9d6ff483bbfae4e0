package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/sonirico/vago/slices"
	"github.com/sonirico/visigoth"

	"verifharness/kit"
	"verifharness/vsched"
)

// ---- running clients ---------------------------------------------------------

// session runs the bodies as concurrent clients: under the seeded scheduler in
// ModeControlled, as free goroutines otherwise. A body may use c.Fail.
func session(c *kit.Ctx, r *kit.Rand, bodies ...func()) vsched.Result {
	var mu sync.Mutex
	var panicked string
	wrapped := make([]func(), len(bodies))
	for i, b := range bodies {
		wrapped[i] = func() {
			defer func() {
				e := recover()
				if e == nil || kit.IsStop(e) {
					return
				}
				st := string(debug.Stack())
				if !kit.Blames(st) {
					c.HarnessPanic(fmt.Sprintf("%v\n%s", e, st))
				}
				mu.Lock()
				if panicked == "" {
					panicked = fmt.Sprintf("%v\n%s", e, st)
				}
				mu.Unlock()
			}()
			b()
		}
	}
	if vsched.Mode != vsched.ModeControlled {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for _, b := range wrapped {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				b()
			}()
		}
		close(gate)
		wg.Wait()
		return vsched.Result{Panic: panicked, Hash: r.Uint64()}
	}
	opt := vsched.Options{Seed: r.Uint64()}
	if len(bodies) > 1 && r.P(0.4) {
		opt.PCT, opt.Depth, opt.Expect = true, 2+r.IntN(4), 40*(1<<r.IntN(6))
	} else {
		opt.Stay = Pick(r, []float64{0, 0.3, 0.7, 0.9, 0.97})
	}
	if len(bodies) == 1 {
		opt.MaxSteps = 40_000_000 // sequences may be long, and nothing can spin
	}
	res := vsched.Run(opt, wrapped...)
	if res.Panic == "" {
		res.Panic = panicked
	}
	c.Count("scheduler steps", int64(res.Steps))
	c.Count("context switches", int64(res.Switches))
	if res.Inconclusive != "" {
		c.Inconclusive(res.Inconclusive)
	}
	if res.Detached > 0 {
		c.Count("tasks seen parked outside the shims", int64(res.Detached))
	}
	c.Tick()
	return res
}

// ---- operations and the sequential model ---------------------------------------

type op struct {
	Kind string // put search has hasalias list aliases alias unalias rename drop dump
	A, B string
	Doc  int
	Eng  string
}

func (o op) String() string {
	switch o.Kind {
	case "put":
		return fmt.Sprintf("Put(%q, doc %d)", o.A, o.Doc)
	case "search":
		return fmt.Sprintf("Search(%q, %q, %s)", o.A, o.B, o.Eng)
	case "churn":
		return fmt.Sprintf("%d times %s set up and removed, at %q", o.Doc, o.B, o.A)
	case "alias", "unalias", "rename":
		return fmt.Sprintf("%s(%q, %q)", o.Kind, o.A, o.B)
	case "list", "aliases", "dump":
		return o.Kind + "()"
	}
	return fmt.Sprintf("%s(%q)", o.Kind, o.A)
}

func (o op) mutates() bool {
	switch o.Kind {
	case "put", "alias", "unalias", "rename", "drop":
		return true
	}
	return false
}

// result of an operation; Docs holds document numbers.
type result struct {
	Ok    bool
	Err   bool
	Docs  []int
	Names []string
	Rows  []string
	Bad   string // something no sequential execution can explain
}

func (x result) String() string {
	return fmt.Sprintf("ok=%v err=%v docs=%v names=%q rows=%q %s", x.Ok, x.Err, x.Docs, x.Names, x.Rows, x.Bad)
}

// Documents are a function of their number. Most are small; some are large, have
// a separate statement, no words at all, or say a word again much later.
const docKinds = 29

func docBase(id int) string {
	return "w" + kit.Itoa(id%3) + " x" + kit.Itoa((id/3)%2) + " id" + kit.Itoa(id)
}

// pads make large statements; set up for the mode and the code's constants.
var pads = []string{"pp "}

func setPads(d *kit.Dict) {
	sizes := append([]int{100, 260, 520, 1030, 2050, 5000}, d.NewSizes(20, 40_000)...)
	counts := append([]int{9, 17, 33, 65, 101, 129, 257}, d.NewSizes(4, 4000)...)
	lim := 4000
	if vsched.Mode == vsched.ModeControlled {
		lim = 40
	}
	pads = nil
	for i, n := range sizes {
		if i > 40 {
			break
		}
		pads = append(pads, strings.Repeat("l", n)+" ")
		if n/3 <= lim {
			pads = append(pads, strings.Repeat("pp ", n/3+1))
		}
	}
	for i, n := range counts {
		if i > 40 || n > lim {
			break
		}
		var b strings.Builder
		for k := 0; k < n; k++ {
			b.WriteString("p" + kit.Itoa(k) + " ")
		}
		// the first word again at the end
		pads = append(pads, b.String()+"p0 ", b.String())
	}
}

// docText is what a document is found by.
func docText(id int) string {
	switch id % docKinds {
	case 7:
		return pads[(id/docKinds)%len(pads)] + docBase(id)
	case 13:
		return ""
	case 23:
		return docBase(id) + " w" + kit.Itoa(id%3) + " id" + kit.Itoa(id)
	}
	return docBase(id)
}

func docContent(id int) string {
	switch id % docKinds {
	case 13, 19:
		return "hidden w9 id" + kit.Itoa(id)
	}
	return docText(id)
}

func docName(id int) string {
	switch id % 31 {
	case 5:
		return ""
	case 8:
		return "\xffn\x00"
	}
	return "n" + kit.Itoa(id%2)
}

func docReq(id int) visigoth.DocRequest {
	switch id % docKinds {
	case 13, 19:
		return visigoth.NewDocRequestWith(docName(id), docContent(id), docText(id))
	case 3:
		return visigoth.NewDocRequestWithMime(docName(id), docContent(id), visigoth.MimeJSON)
	}
	return visigoth.NewDocRequest(docName(id), docContent(id))
}

func wordless(id int) bool { return id%docKinds == 13 }

func docID(d visigoth.Doc) (int, string) {
	i := strings.LastIndex(d.Content, "id")
	if i < 0 {
		return -1, "unknown document " + kit.Clip(d.Content)
	}
	n, err := strconv.Atoi(d.Content[i+2:])
	if err != nil || docContent(n) != d.Content || docName(n) != d.Name {
		return -1, "unknown document " + kit.Clip(d.Name) + " " + kit.Clip(d.Content)
	}
	return n, ""
}

func docMatches(id int, q string) bool {
	ws := strings.Fields(q)
	if len(ws) == 0 {
		return false
	}
	have := docText(id)
	for _, w := range ws {
		if !hasWord(have, w) {
			return false
		}
	}
	return true
}

func hasWord(text, w string) bool {
	for {
		i := strings.Index(text, w)
		if i < 0 {
			return false
		}
		j := i + len(w)
		if (i == 0 || text[i-1] == ' ') && (j == len(text) || text[j] == ' ') {
			return true
		}
		text = text[i+1:]
		// the rest starts inside a word
		if k := strings.IndexByte(text, ' '); k >= 0 {
			text = text[k:]
		} else {
			return false
		}
	}
}

func engineOf(name string) visigoth.Engine {
	if name == "ranked" {
		return ranked
	}
	for _, e := range engines {
		if e.name == name {
			return e.fn
		}
	}
	return nil
}

// ranked is an engine with an order of its own, which is not that of the hits:
// every document, the last one put first.
func ranked(_ []string, in visigoth.Indexer) (out slices.Slice[visigoth.SearchResult]) {
	for i := in.Len() - 1; i >= 0; i-- {
		d := in.Document(i)
		out = append(out, visigoth.SearchResult{Document: d, Hits: int(kit.Hash(d.ID()) % 5)})
	}
	return out
}

// exec runs one operation on the real repository.
func exec(repo *visigoth.IndexRepo, o op) (x result) {
	switch o.Kind {
	case "put":
		repo.Put(o.A, docReq(o.Doc))
	case "search":
		st, err := repo.Search(o.A, o.B, engineOf(o.Eng))
		if err != nil {
			x.Err = true
			return
		}
		x.Docs = drain(st.Next, st.Data, st.Err, &x.Bad)
	case "has":
		x.Ok = repo.Has(o.A)
	case "hasalias":
		x.Ok = repo.HasAlias(o.A)
	case "list":
		x.Names = append([]string{}, repo.List()...)
		sort.Strings(x.Names)
	case "aliases":
		x.Rows = rows(repo.ListAliases())
	case "alias":
		x.Ok = repo.Alias(o.A, o.B)
	case "unalias":
		x.Ok = repo.UnAlias(o.A, o.B)
	case "rename":
		x.Ok = repo.Rename(o.A, o.B)
	case "drop":
		x.Ok = repo.Drop(o.A)
	case "dump":
		_ = repo.String()
	case "churn":
		churn(repo, o)
	}
	return
}

// churn leaves a repository as it was, after very many operations: whatever it
// counts (versions, generations, uses) may wrap around or be cleared up.
func churn(repo *visigoth.IndexRepo, o op) {
	const name = "\x00churn"
	for k := 0; k < o.Doc; k++ {
		switch o.B {
		case "aliases":
			if repo.Alias(name, o.A) {
				repo.UnAlias(name, []string{"", o.A}[k%2])
			}
		case "indices":
			repo.Put(name, docReq(k))
			repo.Drop(name)
		case "failures":
			repo.Drop(name)
			repo.UnAlias(name, name)
			repo.Rename(name, "a")
			repo.Search(name, "", nil)
			repo.Alias("a", name)
		case "searches":
			repo.Search(o.A, "w0", visigoth.HitsSearch)
		}
	}
}

// churning draws such operations, in numbers that make counters wrap around
// together with those before and after.
func churning(r *kit.Rand, name string) op {
	what := Pick(r, []string{"aliases", "aliases", "indices", "indices", "failures", "searches"})
	n := 128 - r.IntN(6)
	if r.P(0.25) {
		n = r.Size(1, 600)
	}
	if r.P(0.02) && what == "aliases" {
		n = 32768 - r.IntN(6)
	}
	return op{Kind: "churn", A: name, B: what, Doc: n}
}

func drain(next func() bool, data func() visigoth.SearchResult, errf func() error, bad *string) []int {
	var out []int
	for n := 0; next(); n++ {
		if n > 1_000_000 {
			*bad = "the stream does not end"
			return out
		}
		id, b := docID(data().Document)
		if b != "" {
			*bad = b
		}
		out = append(out, id)
	}
	if next() {
		*bad = "the stream yields results after its end"
	}
	if errf() != nil {
		*bad = "the stream ends with an error"
	}
	return out
}

func rows(a visigoth.AliasesResult) []string {
	out := make([]string, 0, len(a.Aliases))
	for _, row := range a.Aliases {
		l := append([]string{}, row.Indices...)
		sort.Strings(l)
		out = append(out, fmt.Sprintf("%q=%q", row.Alias, l))
	}
	sort.Strings(out)
	return out
}

// model is the sequential repository.
type model struct {
	idx map[string][]int
	als map[string][]string // sorted
}

func newModel() *model { return &model{map[string][]int{}, map[string][]string{}} }

func (m *model) clone() *model {
	n := newModel()
	for k, v := range m.idx {
		n.idx[k] = v[:len(v):len(v)]
	}
	for k, v := range m.als {
		n.als[k] = v[:len(v):len(v)]
	}
	return n
}

func (m *model) key() string {
	b := make([]byte, 0, 256)
	ks := make([]string, 0, 8)
	for k := range m.idx {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b = strconv.AppendQuote(b, k)
		for _, d := range m.idx[k] {
			b = strconv.AppendInt(append(b, ' '), int64(d), 10)
		}
	}
	b = append(b, '|')
	ks = ks[:0]
	for k := range m.als {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b = strconv.AppendQuote(b, k)
		for _, x := range m.als[k] {
			b = strconv.AppendQuote(append(b, ' '), x)
		}
		b = append(b, ';')
	}
	return string(b)
}

func without(l []string, x string) []string {
	var out []string
	for _, y := range l {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func with(l []string, x string) []string {
	out := append(without(l, x), x)
	sort.Strings(out)
	return out
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// resolve gives the indices a name addresses.
func (m *model) resolve(name string) (l []string, isAlias bool) {
	if _, ok := m.idx[name]; ok {
		return []string{name}, false
	}
	return m.als[name], len(m.als[name]) > 0
}

func (m *model) rows() []string {
	out := make([]string, 0, len(m.als))
	for k, v := range m.als {
		out = append(out, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(out)
	return out
}

func (m *model) names() []string {
	out := make([]string, 0, len(m.idx))
	for k := range m.idx {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func match(docs []int, q, eng string) []int {
	var out []int
	switch eng {
	case "all":
		return docs
	case "zero":
		return nil
	case "ranked":
		for i := range docs {
			out = append(out, docs[len(docs)-1-i])
		}
		return out
	}
	for _, d := range docs {
		if docMatches(d, q) {
			out = append(out, d)
		}
	}
	return out
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sorted(a []int) []int {
	b := append([]int{}, a...)
	sort.Ints(b)
	return b
}

// step changes the model by o and says whether the result got is what the
// sequential repository could answer.
func (m *model) step(o op, got result) bool {
	if got.Bad != "" {
		return false
	}
	switch o.Kind {
	case "churn":
		return true
	case "put":
		l, _ := m.resolve(o.A)
		if len(l) == 0 {
			l = []string{o.A}
		}
		for _, n := range l {
			m.idx[n] = append(m.idx[n][:len(m.idx[n]):len(m.idx[n])], o.Doc)
		}
		return true
	case "search":
		l, isAlias := m.resolve(o.A)
		if len(l) == 0 {
			return got.Err
		}
		if got.Err {
			return false
		}
		if !isAlias {
			return eqInts(got.Docs, match(m.idx[o.A], o.B, o.Eng))
		}
		var want []int
		for _, n := range l {
			want = append(want, match(m.idx[n], o.B, o.Eng)...)
		}
		return eqInts(sorted(got.Docs), sorted(want))
	case "has":
		_, ok := m.idx[o.A]
		return ok == got.Ok
	case "hasalias":
		return (len(m.als[o.A]) > 0) == got.Ok
	case "list":
		return eqStrings(m.names(), got.Names)
	case "aliases":
		return eqStrings(m.rows(), got.Rows)
	case "alias":
		_, exists := m.idx[o.B]
		if !exists || has(m.als[o.A], o.B) {
			return !got.Ok
		}
		m.als[o.A] = with(m.als[o.A], o.B)
		return got.Ok
	case "unalias":
		l := m.als[o.A]
		if o.B == "" {
			delete(m.als, o.A)
			return got.Ok == (len(l) > 0)
		}
		_, exists := m.idx[o.B]
		if !exists || len(l) == 0 {
			return !got.Ok
		}
		if !has(l, o.B) {
			return true // both exist but are not associated: either answer
		}
		if l = without(l, o.B); len(l) == 0 {
			delete(m.als, o.A)
		} else {
			m.als[o.A] = l
		}
		return got.Ok
	case "rename":
		docs, ok := m.idx[o.A]
		if !ok {
			return !got.Ok
		}
		if o.A != o.B {
			delete(m.idx, o.A)
			m.idx[o.B] = docs
			for a, l := range m.als {
				if has(l, o.A) {
					m.als[a] = with(without(l, o.A), o.B)
				}
			}
		}
		return got.Ok
	case "drop":
		_, ok := m.idx[o.A]
		if !ok {
			return !got.Ok
		}
		delete(m.idx, o.A)
		for a, l := range m.als {
			if has(l, o.A) {
				if l = without(l, o.A); len(l) == 0 {
					delete(m.als, a)
				} else {
					m.als[a] = l
				}
			}
		}
		return got.Ok
	}
	return true
}

// answer is what the model would say, for witnesses.
func (m *model) answer(o op) string {
	switch o.Kind {
	case "search":
		l, _ := m.resolve(o.A)
		if len(l) == 0 {
			return "an error"
		}
		var want []int
		for _, n := range l {
			want = append(want, match(m.idx[n], o.B, o.Eng)...)
		}
		return fmt.Sprintf("docs %v (indices %q)", want, l)
	case "list":
		return fmt.Sprintf("%q", m.names())
	case "aliases":
		return fmt.Sprintf("%q", m.rows())
	case "has":
		_, ok := m.idx[o.A]
		return fmt.Sprint(ok)
	case "hasalias":
		return fmt.Sprint(len(m.als[o.A]) > 0)
	}
	return "the opposite"
}

// ---- random operations ----------------------------------------------------------

type gen struct {
	r       *kit.Rand
	names   []string
	weights map[string]int
	nextDoc int
	made    int     // documents put
	repeat  float64 // how often a document is put again
	total   int
	kinds   []string
}

func newGen(r *kit.Rand, names []string, weights map[string]int) *gen {
	g := &gen{r: r, names: names, weights: weights, repeat: 0.06}
	if r.P(0.7) {
		g.nextDoc = r.IntN(docKinds * 40)
	}
	for _, k := range []string{"put", "search", "has", "hasalias", "list", "aliases", "alias", "unalias", "rename", "drop", "dump"} {
		if weights[k] > 0 {
			g.kinds = append(g.kinds, k)
			g.total += weights[k]
		}
	}
	return g
}

func (g *gen) name() string { return Pick(g.r, g.names) }

func (g *gen) query() (string, string) {
	r := g.r
	e := Pick(r, []string{"all", "hits", "linear", "hits", "linear", "zero", "all", "ranked"})
	switch r.IntN(6) {
	case 0:
		return "", e
	case 1:
		return "id" + kit.Itoa(g.nextDoc-r.IntN(min(g.nextDoc, 30)+1)), e
	case 2:
		return "nowhere", e
	case 3:
		return "w" + kit.Itoa(r.IntN(3)) + " x" + kit.Itoa(r.IntN(2)), e
	case 4:
		if r.P(0.3) {
			return Pick(r, []string{"pp", "p0", "p8", "w0 w0", " w1  w1 x0 ", "w9", "hidden", "w2 nowhere", "x1 w0 p0"}), e
		}
	}
	return "w" + kit.Itoa(r.IntN(3)), e
}

func (g *gen) next() op {
	r := g.r
	n := r.IntN(g.total)
	kind := ""
	for _, k := range g.kinds {
		if n -= g.weights[k]; n < 0 {
			kind = k
			break
		}
	}
	o := op{Kind: kind, A: g.name()}
	switch kind {
	case "put":
		o.Doc = g.nextDoc
		if g.made > 0 && r.P(g.repeat) { // one that has been put before
			o.Doc -= 1 + r.IntN(min(g.made, 4))
			break
		}
		g.nextDoc++
		g.made++
	case "search":
		o.B, o.Eng = g.query()
	case "alias", "rename":
		o.B = g.name()
		if kind == "rename" && r.P(0.1) {
			o.B = o.A
		}
	case "unalias":
		o.B = g.name()
		if r.P(0.15) {
			o.B = ""
		}
	case "list", "aliases", "dump":
		o.A = ""
	}
	return o
}

// universe draws the names used in a case; the same names serve as indices and
// as aliases.
func universe(r *kit.Rand) []string {
	switch r.IntN(13) {
	case 6:
		return append([]string{"z"}, r.Lookalikes()...)
	case 7, 8: // names that contain others
		w := Pick(r, []string{":", "/", "-", ".", "_", "@", "#", " ", ",", "\x00", "|", "*", "~"})
		if r.P(0.6) && len(r.D.Words()) > 0 {
			w = Pick(r, r.D.Words())
		}
		return []string{"a", "b", "a" + w, "a" + w + "b", "a" + w + "2", w + "a"}
	case 0:
		return []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}
	case 1:
		return []string{"a", "A", "a ", "", "á", "a/b", "\xff", "aa"}
	case 2:
		out := []string{"a", "b"}
		for len(out) < 6 {
			w := r.Token()
			if r.P(0.3) && len(r.D.Words()) > 0 {
				w = Pick(r, r.D.Words())
			}
			out = append(out, w)
		}
		return out
	case 3:
		return []string{"a", "b", "c"}
	case 5:
		s, t := r.Twins()
		u, v := r.Twins()
		return []string{"a", s, t, u, v, s + "a"}
	case 4:
		return []string{"a", "b", "ab", "ba", "a:b", strings.Repeat("long", 80)}
	}
	return []string{"a", "b", "c", "x", "y", "z"}
}
