package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/sonirico/vago/streams"
	"github.com/sonirico/visigoth"

	"verifharness/kit"
	"verifharness/vsched"
)

func init() {
	for _, p := range []string{"R01", "R02", "R03", "R04", "R05"} {
		props[p] = func(c *kit.Ctx) { repoSeq(c, p) }
	}
	props["R06"] = r06
	props["R07"] = r07
	props["R08"] = r08
}

// lazyIndex is an index of the user that keeps its answers until the next put,
// and hands out the same ones again, in slices with room to spare.
type lazyIndex struct {
	*visigoth.MemoryIndex
	mu   sync.Mutex
	kept map[string]results
}

func (x *lazyIndex) Put(d visigoth.DocRequest) visigoth.Index {
	for !x.mu.TryLock() {
		vsched.Yield()
	}
	defer x.mu.Unlock()
	x.MemoryIndex.Put(d)
	clear(x.kept)
	return x
}

func (x *lazyIndex) Search(terms string, e visigoth.Engine) results {
	for !x.mu.TryLock() {
		vsched.Yield()
	}
	defer x.mu.Unlock()
	key := fmt.Sprintf("%x %s", reflect.ValueOf(e).Pointer(), terms)
	if _, ok := x.kept[key]; !ok {
		got := x.MemoryIndex.Search(terms, e)
		x.kept[key] = append(make(results, 0, len(got)+4), got...)
	}
	return x.kept[key]
}

func builder(r *kit.Rand) (visigoth.Builder, string) {
	switch r.IntN(3) {
	case 0:
		return visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{}), "space"
	case 1:
		return visigoth.NewMemoryIndexBuilder(visigoth.NewKeepAlphanumericTokenizer()), "alnum"
	}
	return visigoth.NewMemoryIndexBuilder(visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer())), "alnum+lower"
}

var weights = map[string]map[string]int{
	"R01": {"put": 10, "drop": 4, "rename": 2, "search": 6, "has": 2, "list": 2, "alias": 2, "unalias": 1},
	"R02": {"put": 12, "search": 8, "alias": 8, "unalias": 3, "drop": 2, "rename": 2},
	"R03": {"put": 5, "alias": 12, "unalias": 9, "drop": 4, "rename": 3, "aliases": 2, "hasalias": 2, "search": 1},
	"R04": {"put": 7, "alias": 6, "rename": 9, "drop": 2, "unalias": 2, "search": 2},
	"R05": {"put": 8, "alias": 5, "unalias": 3, "rename": 4, "drop": 4, "search": 2, "list": 1},
	"all": {"put": 8, "alias": 6, "unalias": 4, "rename": 4, "drop": 4, "search": 6, "list": 1, "has": 1, "hasalias": 1, "aliases": 2, "dump": 1},
}

// seqRepo is a repository next to its model.
type seqRepo struct {
	c       *kit.Ctx
	prop    string
	repo    *visigoth.IndexRepo
	m       *model
	g       *gen
	r       *kit.Rand // the observer's choices
	tag     string
	log     *[]string
	since   []did // operations since everything was last compared
	blind   bool  // compare rarely
	done    bool
	resyncs int
	differs string // how the repository differed (blind)
	tags    []string
}

// did is an operation that may have changed something.
type did struct {
	o             op
	reach         []string // indices it addressed, before and after
	viaAlias      bool     // a put addressed to an alias
	before, after *model
}

func (s *seqRepo) witness(extra string) any {
	return map[string]any{"operations": *s.log, "detail": extra}
}

func (s *seqRepo) lately() string {
	var l []string
	for _, d := range s.since {
		l = append(l, d.o.String())
	}
	if len(l) == 0 {
		return "nothing"
	}
	return strings.Join(l, ", ")
}

// diverge handles a difference that refutes the properties in tags.
func (s *seqRepo) diverge(tags []string, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if s.blind { // see attribute
		s.differs, s.tags, s.done = msg, tags, true
		return
	}
	if has(tags, s.prop) {
		s.c.Fail(s.witness("after "+s.lately()), "%s", msg)
	}
	if s.prop == "R05" {
		s.spill()
	}
	s.c.Count("differences that refute another property: "+strings.Join(tags, ","), 1)
	if s.resyncs++; s.resyncs > 6 || !s.resync() {
		s.done = true
	}
}

// spill looks at the indices no recent operation addressed, after something else
// has been found wrong.
func (s *seqRepo) spill() {
	for _, n := range s.m.names() {
		if s.reached(n) {
			continue
		}
		o := op{Kind: "search", A: n, Eng: "all"}
		s.c.Op("%s%s", s.tag, o)
		s.c.Eval(1)
		if x := exec(s.repo, o); !s.m.step(o, x) {
			s.c.Fail(s.witness("after "+s.lately()), "%safter %s, which did not address it, %s answers %s, want %s", s.tag, s.lately(), o, x, s.m.answer(o))
		}
	}
}

// resync takes over the state the repository claims to be in, so that a sequence
// can go on after a difference that is another property's matter.
func (s *seqRepo) resync() bool {
	m := newModel()
	for _, n := range s.repo.List() {
		if _, dup := m.idx[n]; dup {
			return false
		}
		x := exec(s.repo, op{Kind: "search", A: n, Eng: "all"})
		if x.Err || x.Bad != "" {
			return false
		}
		m.idx[n] = x.Docs
	}
	for _, row := range s.repo.ListAliases().Aliases {
		if _, dup := m.als[row.Alias]; dup || len(row.Indices) == 0 {
			return false
		}
		for _, n := range row.Indices {
			if _, ok := m.idx[n]; !ok {
				return false
			}
			if has(m.als[row.Alias], n) && (s.prop == "R04" || s.prop == "R05") {
				return false // would be blamed on the next operation
			}
			m.als[row.Alias] = with(m.als[row.Alias], n)
		}
	}
	s.m = m
	return true
}

// tags for something that went wrong with an index or an alias name
func (s *seqRepo) tagsIndex(name string) []string {
	t := []string{"R01"}
	for _, d := range s.since {
		switch d.o.Kind {
		case "rename":
			t = append(t, "R04")
		case "alias", "unalias":
			t = append(t, "R03")
		case "put":
			if d.viaAlias {
				t = append(t, "R02")
			}
		}
	}
	if !s.reached(name) {
		t = append(t, "R05")
	}
	return t
}

func (s *seqRepo) reached(name string) bool {
	for _, d := range s.since {
		if has(d.reach, name) {
			return true
		}
	}
	return false
}

func (s *seqRepo) lastly(kinds ...string) bool {
	for _, d := range s.since {
		if has(kinds, d.o.Kind) {
			return true
		}
	}
	return false
}

func (s *seqRepo) tagsAlias(name string) []string {
	t := []string{"R03"}
	concerned := false
	for _, d := range s.since {
		before, after := d.before.als[name], d.after.als[name]
		switch d.o.Kind {
		case "rename":
			t = append(t, "R04")
			concerned = concerned || has(before, d.o.A) || has(after, d.o.A) || has(after, d.o.B)
		case "drop":
			concerned = concerned || has(before, d.o.A) || has(after, d.o.A)
		case "alias", "unalias":
			concerned = concerned || d.o.A == name
		}
	}
	if !concerned {
		t = append(t, "R05")
	}
	return t
}

func (s *seqRepo) do(o op) {
	before := s.m.clone()
	if o.mutates() {
		d := did{o: o, before: before}
		switch o.Kind {
		case "put":
			l, al := before.resolve(o.A)
			d.reach, d.viaAlias = append([]string{}, l...), al
			if len(l) == 0 {
				d.reach = []string{o.A}
			}
		case "rename":
			d.reach = []string{o.A, o.B}
		case "drop":
			d.reach = []string{o.A}
		}
		s.since = append(s.since, d)
	}
	if len(*s.log) < 300 {
		*s.log = append(*s.log, s.tag+o.String())
	}
	s.c.Op("%s%s", s.tag, o)
	got := exec(s.repo, o)
	s.c.Eval(1)
	s.c.Count("op:"+o.Kind, 1)
	ok := s.m.step(o, got)
	if o.mutates() {
		s.since[len(s.since)-1].after = s.m.clone()
	}
	if ok {
		return
	}
	tags := map[string][]string{"list": {"R01"}, "has": {"R01"}, "hasalias": {"R03"}, "aliases": {"R03"}, "alias": {"R03"}, "unalias": {"R03"}, "rename": {"R04"}, "drop": {"R01"}}[o.Kind]
	if o.Kind == "search" {
		l, al := before.resolve(o.A)
		if al {
			tags = []string{"R02"}
		} else {
			tags = []string{"R01"}
		}
		if s.lastly("rename") {
			tags = append(tags, "R04")
		}
		if !s.lastly("alias", "unalias") {
			for _, n := range append(append([]string{}, l...), o.A) {
				if !s.reached(n) {
					tags = append(tags, "R05")
					break
				}
			}
		}
	}
	s.diverge(tags, "%s%s answers %s; the sequential repository answers %s", s.tag, o, got, before.answer(o))
}

// verify compares everything observable with the model.
func (s *seqRepo) verify(full bool) {
	if s.done {
		return
	}
	s.compare(full)
	s.since = s.since[:0]
}

func (s *seqRepo) compare(full bool) {
	r := s.r
	names := map[string]bool{}
	for _, n := range s.g.names {
		names[n] = true
	}
	for n := range s.m.idx {
		names[n] = true
	}
	for n := range s.m.als {
		names[n] = true
	}
	all := make([]string, 0, len(names))
	for n := range names {
		all = append(all, n)
	}
	sort.Strings(all)
	q := func(o op) result { s.c.Op("%s%s", s.tag, o); s.c.Eval(1); return exec(s.repo, o) }
	// existence
	if l := q(op{Kind: "list"}); !s.m.step(op{Kind: "list"}, l) {
		tags := map[string]bool{}
		for _, n := range append(append([]string{}, all...), l.Names...) {
			cnt := 0
			for _, x := range l.Names {
				if x == n {
					cnt++
				}
			}
			if _, ok := s.m.idx[n]; (ok && cnt != 1) || (!ok && cnt != 0) {
				for _, t := range s.tagsIndex(n) {
					tags[t] = true
				}
			}
		}
		s.diverge(keys(tags), "%safter %s the indices listed are %q, want %q", s.tag, s.lately(), l.Names, s.m.names())
		return
	}
	for _, n := range all {
		if x := q(op{Kind: "has", A: n}); !s.m.step(op{Kind: "has", A: n}, x) {
			s.diverge(s.tagsIndex(n), "%safter %s Has(%q)=%v", s.tag, s.lately(), n, x.Ok)
			return
		}
		if x := q(op{Kind: "hasalias", A: n}); !s.m.step(op{Kind: "hasalias", A: n}, x) {
			s.diverge(s.tagsAlias(n), "%safter %s HasAlias(%q)=%v", s.tag, s.lately(), n, x.Ok)
			return
		}
	}
	if x := q(op{Kind: "aliases"}); !s.m.step(op{Kind: "aliases"}, x) {
		tags := map[string]bool{"R03": true}
		wantRows := s.m.rows()
		for _, n := range all {
			pre := fmt.Sprintf("%q=", n)
			var a, b string
			for _, row := range x.Rows {
				if strings.HasPrefix(row, pre) {
					a += row + ";"
				}
			}
			for _, row := range wantRows {
				if strings.HasPrefix(row, pre) {
					b += row + ";"
				}
			}
			if a != b {
				for _, t := range s.tagsAlias(n) {
					tags[t] = true
				}
			}
		}
		s.diverge(keys(tags), "%safter %s the aliases listed are %q, want %q", s.tag, s.lately(), x.Rows, wantRows)
		return
	}
	// contents
	for _, n := range all {
		if !full && !s.reached(n) && !r.P(0.4) {
			continue
		}
		os := []op{{Kind: "search", A: n, Eng: "all"}}
		if r.P(0.5) {
			b, e := s.g.query()
			os = append(os, op{Kind: "search", A: n, B: b, Eng: e})
		}
		for _, o := range os {
			x := q(o)
			if s.m.step(o, x) {
				continue
			}
			l, al := s.m.resolve(n)
			tags := map[string]bool{}
			if al {
				tags["R02"] = true
				own := s.reached(n) || s.lastly("alias", "unalias")
				for _, i := range l {
					own = own || s.reached(i)
				}
				if !own {
					tags["R05"] = true
				}
				if s.lastly("rename") {
					tags["R04"] = true
				}
				if s.lastly("alias", "unalias", "drop") {
					tags["R03"] = true
				}
				for _, d := range s.since {
					if d.o.Kind == "put" && !d.viaAlias {
						tags["R01"] = true
					}
				}
			} else {
				for _, t := range s.tagsIndex(n) {
					tags[t] = true
				}
			}
			s.diverge(keys(tags), "%safter %s: %s answers %s, want %s", s.tag, s.lately(), o, x, s.m.answer(o))
			return
		}
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// judge turns a run that did not come to its end into a violation.
func judge(c *kit.Ctx, res vsched.Result, witness any) bool {
	if c.Violated() {
		return false
	}
	if bad := res.Bad(); bad != "" {
		c.Violate(witness, "the operations do not complete: %s", bad)
		return false
	}
	return res.Inconclusive == ""
}

func repoSeq(c *kit.Ctx, prop string) {
	one := func(r *kit.Rand, nops int, names []string, w map[string]int) {
		b, _ := builder(r)
		repos := 1
		if prop == "R05" && r.P(0.5) {
			repos = 2 // sharing one pipeline
		}
		type todo struct {
			k int
			o op
		}
		g := newGen(r, names, w)
		plan := make([]todo, nops)
		churns := 0.0
		if r.P(0.3) {
			churns = 0.08
		}
		for k := range plan {
			plan[k] = todo{r.IntN(repos), g.next()}
			if r.P(churns) {
				plan[k].o = churning(r, g.name())
			}
		}
		seed := r.Uint64()
		// Most sequences are compared with the model after every operation, so
		// that it is clear which operation a difference is due to. The others
		// are left alone for long stretches, since looking may hide things.
		run := func(blind bool) (log []string, diff *seqRepo, differed, ok bool) {
			rr := kit.NewRand(seed, 1, r.D)
			res := session(c, r, func() {
				var rs []*seqRepo
				for i := 0; i < repos; i++ {
					tag := ""
					if repos > 1 {
						tag = fmt.Sprintf("repo%d.", i)
					}
					rs = append(rs, &seqRepo{c: c, prop: prop, repo: visigoth.NewIndexRepo(b), m: newModel(), g: g, r: rr, log: &log, tag: tag, blind: blind})
				}
				often := Pick(rr, []float64{0, 0, 0.05, 0.3})
				for k, t := range plan {
					s := rs[t.k]
					s.do(t.o)
					if !blind || k == len(plan)-1 || rr.P(often) {
						for _, x := range rs {
							x.verify(!blind || x != s || k == len(plan)-1)
						}
					}
					for _, x := range rs {
						differed = differed || x.done || x.resyncs > 0
						if x.done {
							diff = x
							return
						}
					}
				}
			})
			return log, diff, differed, judge(c, res, map[string]any{"operations": log})
		}
		blind := r.P(0.4)
		log, diff, _, ok := run(blind)
		if ok && blind && diff != nil {
			// who is to blame shows when the same operations are watched
			_, _, again, ok := run(false)
			if ok && !again && has(diff.tags, prop) {
				c.Violate(map[string]any{"operations": log, "note": "the difference does not show when every operation is followed by a comparison"}, "%s", diff.differs)
			}
		}
		if ok && !c.Violated() {
			c.Nontrivial(kit.Hash(strings.Join(log, "\n")))
			if c.WantSample() && len(log) < 40 {
				c.Sample(log)
			}
		}
	}
	c.Cases("sequences", 0, c.N(1200, 60000), func(r *kit.Rand, i int) {
		w := weights[prop]
		if r.P(0.25) {
			w = weights["all"]
		}
		one(r, r.Size(4, 60), universe(r), w)
	})
	c.Cases("long sequences", 1_000_000, c.N(24, 1200), func(r *kit.Rand, i int) {
		one(r, 400, universe(r), weights[prop])
	})
	c.Cases("many names", 2_000_000, c.N(24, 1200), func(r *kit.Rand, i int) {
		// an alias over many indices, many aliases over one index
		n := r.Size(8, 70)
		var names []string
		for k := 0; k < n; k++ {
			names = append(names, "i"+kit.Itoa(k))
		}
		log := []string{}
		b, _ := builder(r)
		res := session(c, r, func() {
			g := newGen(r, names, weights[prop])
			s := &seqRepo{c: c, prop: prop, repo: visigoth.NewIndexRepo(b), m: newModel(), g: g, r: r, log: &log}
			step := func(o op, check bool) bool {
				if s.done {
					return false
				}
				s.do(o)
				if check {
					s.verify(r.P(0.2))
				}
				return !s.done
			}
			put := func(n string) op {
				g.nextDoc++
				return op{Kind: "put", A: n, Doc: g.nextDoc - 1}
			}
			for _, n := range names {
				if !step(put(n), r.P(0.1)) || !step(op{Kind: "alias", A: "all", B: n}, r.P(0.1)) || !step(op{Kind: "alias", A: "to-" + names[0] + n, B: names[0]}, r.P(0.1)) {
					return
				}
			}
			for k := 0; k < 12; k++ {
				var o op
				switch r.IntN(6) {
				case 0, 1:
					o = put("all")
				case 2:
					o = op{Kind: "unalias", A: "all", B: g.name()}
				case 3:
					o = op{Kind: "drop", A: g.name()}
				case 4:
					o = op{Kind: "rename", A: g.name(), B: Pick(r, []string{g.name(), "new" + kit.Itoa(k)})}
				case 5:
					o = op{Kind: "rename", A: names[0], B: "zero" + kit.Itoa(k)}
				}
				if !step(o, true) {
					return
				}
				q, e := g.query()
				if !step(op{Kind: "search", A: "all", B: q, Eng: e}, false) {
					return
				}
			}
		})
		if judge(c, res, map[string]any{"operations": log}) {
			c.Nontrivial(kit.Hash(strings.Join(log, "\n")))
		}
	})
}

// r06: listings and streams are snapshots.
func r06(c *kit.Ctx) {
	type snap struct {
		what   string
		names  []string
		rows   []visigoth.AliasesResultRow
		want   []string // canonical content at the time
		stream streams.ReadStream[visigoth.SearchResult]
		docs   []int
		read   int
		closed bool
		gone   bool // closed by the reader, not to be read
	}
	canon := func(rows []visigoth.AliasesResultRow) []string {
		out := make([]string, 0, len(rows))
		for _, row := range rows {
			out = append(out, fmt.Sprintf("%q=%q", row.Alias, row.Indices))
		}
		return out
	}
	one := func(r *kit.Rand, lo, hi int, lazy float64) {
		log := []string{}
		b, _ := builder(r)
		if r.P(lazy) {
			plain := b
			b = func(name string) visigoth.Index {
				return &lazyIndex{MemoryIndex: plain(name).(*visigoth.MemoryIndex), kept: map[string]results{}}
			}
		}
		names := universe(r)
		res := session(c, r, func() {
			g := newGen(r, names, weights["all"])
			s := &seqRepo{c: c, prop: "R06", repo: visigoth.NewIndexRepo(b), m: newModel(), g: g, log: &log}
			var snaps []*snap
			var lastQ, lastE string
			check := func(x *snap, at string) {
				c.Eval(1)
				switch {
				case x.names != nil:
					if !eqStrings(x.names, x.want) {
						c.Fail(s.witness(at), "an index listing (%s) changed from %q to %q", x.what, x.want, x.names)
					}
				case x.rows != nil:
					if now := canon(x.rows); !eqStrings(now, x.want) {
						c.Fail(s.witness(at), "an alias listing (%s) changed from %q to %q", x.what, x.want, now)
					}
				}
			}
			read := func(x *snap, n int) {
				for ; n > 0; n-- {
					c.Eval(1)
					if !x.stream.Next() {
						if x.read != len(x.docs) {
							c.Fail(s.witness(x.what), "a stream ends after %d of %d results", x.read, len(x.docs))
						}
						if x.stream.Err() != nil {
							c.Fail(s.witness(x.what), "a stream ends with the error %v", x.stream.Err())
						}
						x.closed = true
						return
					}
					d := x.stream.Data()
					if x.read >= len(x.docs) {
						c.Fail(s.witness(x.what), "a stream yields more than its %d results", len(x.docs))
					}
					id, bad := docID(d.Document)
					if bad != "" || id != x.docs[x.read] {
						c.Fail(s.witness(x.what), "result %d of a stream is document %d %s, was %d when the search was made", x.read, id, bad, x.docs[x.read])
					}
					if again := x.stream.Data(); again != d {
						c.Fail(s.witness(x.what), "reading the same result of a stream twice gives different documents")
					}
					x.read++
				}
			}
			for k := r.Size(lo, hi); k > 0; k-- {
				if len(snaps) > 0 && r.P(0.07) { // done with a stream, perhaps told twice
					if y := Pick(r, snaps); y.stream != nil {
						log = append(log, "close "+y.what)
						for n := 1 + r.IntN(2); n > 0; n-- {
							_ = y.stream.Close()
						}
						y.closed, y.gone = true, true
						c.Count("streams closed early", 1)
					}
				}
				switch x := r.IntN(10); {
				case x < 4:
					before := s.m.clone()
					s.do(g.next())
					_ = before
				case x < 5:
					l := s.repo.List()
					log = append(log, "keep List()")
					snaps = append(snaps, &snap{what: fmt.Sprintf("operation %d", len(log)), names: l, want: append([]string{}, l...)})
				case x < 6:
					a := s.repo.ListAliases()
					log = append(log, "keep ListAliases()")
					if a.Aliases != nil {
						snaps = append(snaps, &snap{what: fmt.Sprintf("operation %d", len(log)), rows: a.Aliases, want: canon(a.Aliases)})
					}
				case x < 7:
					q, e := g.query()
					if lastE != "" && r.P(0.5) {
						q, e = lastQ, lastE
					}
					lastQ, lastE = q, e
					n := g.name()
					// the reference: the same search consumed at once
					o := op{Kind: "search", A: n, B: q, Eng: e}
					st, err := s.repo.Search(n, q, engineOf(e))
					now := exec(s.repo, o)
					if (err != nil) != now.Err {
						s.done = true
						return
					}
					if err != nil {
						continue
					}
					log = append(log, "keep "+o.String())
					snaps = append(snaps, &snap{what: o.String(), stream: st, docs: now.Docs})
				case x < 9 && len(snaps) > 0:
					y := Pick(r, snaps)
					if y.gone {
						continue
					} else if y.stream != nil {
						log = append(log, "read some of "+y.what)
						read(y, 1+r.IntN(3))
					} else {
						check(y, "later")
					}
				case len(snaps) > 0: // the caller spoils a listing of its own
					y := Pick(r, snaps)
					ref := s.m
					if y.names != nil {
						log = append(log, "overwrite the List() of "+y.what)
						for k := range y.names {
							y.names[k] = "spoilt"
						}
						_ = append(y.names, "spoilt")
						y.want = append([]string{}, y.names...)
					} else if y.rows != nil {
						log = append(log, "overwrite the ListAliases() of "+y.what)
						for k := range y.rows {
							row := &y.rows[k]
							full := row.Indices[:cap(row.Indices)]
							for j := range full {
								full[j] = "spoilt"
							}
							_ = append(row.Indices, "spoilt")
							row.Alias = "spoilt"
						}
						y.want = canon(y.rows)
					} else {
						continue
					}
					// neither the repository nor another listing may change
					if l := exec(s.repo, op{Kind: "list"}); !ref.step(op{Kind: "list"}, l) {
						c.Fail(s.witness(""), "overwriting a listing changes the repository: indices %q, want %q", l.Names, ref.names())
					}
					if l := exec(s.repo, op{Kind: "aliases"}); !ref.step(op{Kind: "aliases"}, l) {
						c.Fail(s.witness(""), "overwriting a listing changes the repository: aliases %q, want %q", l.Rows, ref.rows())
					}
					for _, n := range names {
						o := op{Kind: "search", A: n, Eng: "all"}
						if x := exec(s.repo, o); !ref.step(o, x) {
							c.Fail(s.witness(""), "overwriting a listing changes the repository: %s answers %s, want %s", o, x, ref.answer(o))
						}
					}
					for _, z := range snaps {
						check(z, "after another listing was overwritten")
					}
				}
				if s.done {
					return
				}
			}
			c.Count("snapshots kept", int64(len(snaps)))
			for _, x := range snaps {
				if x.stream != nil {
					for !x.closed {
						read(x, 1)
					}
				} else {
					check(x, "at the end")
				}
			}
		})
		if judge(c, res, map[string]any{"operations": log}) {
			c.Nontrivial(kit.Hash(strings.Join(log, "\n")))
			if c.WantSample() && len(log) < 30 {
				c.Sample(log)
			}
		}
	}
	c.Cases("sequences", 0, c.N(1600, 80000), func(r *kit.Rand, i int) { one(r, 6, 70, 0.25) })
	// answers that an index of the user keeps and hands out again
	c.Cases("kept answers", 1_000_000, c.N(800, 40000), func(r *kit.Rand, i int) { one(r, 60, 270, 1) })
}

// slowIndex answers after a number of schedule points of its own.
type slowIndex struct {
	*visigoth.MemoryIndex
	n func() int
}

func (s slowIndex) Put(d visigoth.DocRequest) visigoth.Index {
	for k := s.n(); k > 0; k-- {
		vsched.Yield()
	}
	return s.MemoryIndex.Put(d)
}

func (s slowIndex) Search(terms string, e visigoth.Engine) results {
	for k := s.n(); k > 0; k-- {
		vsched.Yield()
	}
	out := s.MemoryIndex.Search(terms, e)
	for k := s.n(); k > 0; k-- {
		vsched.Yield()
	}
	return out
}

// r07: searching an alias is deterministic.
func r07(c *kit.Ctx) {
	c.Cases("aliases", 0, c.N(1600, 80000), func(r *kit.Rand, i int) {
		log := []string{}
		b, _ := builder(r)
		slow := r.P(0.6)
		if slow {
			b = func(name string) visigoth.Index {
				return slowIndex{visigoth.NewMemoryIndex(name, kit.SpaceTokenizer{}), func() int {
					if vsched.Mode != vsched.ModeControlled {
						return rand.IntN(100)
					}
					return r.IntN(12)
				}}
			}
		}
		var repo *visigoth.IndexRepo
		k := r.Size(1, 9)
		if r.P(0.1) {
			k = r.Size(8, 40)
		}
		owner := map[int]string{} // index of each document put directly
		m := newModel()
		do := func(o op) {
			if len(log) < 200 {
				log = append(log, o.String())
			}
			c.Op("%s", o)
			m.step(o, exec(repo, o))
		}
		doc := r.IntN(docKinds * 40)
		res := session(c, r, func() {
			repo = visigoth.NewIndexRepo(b)
			for j := 0; j < k; j++ {
				n := "i" + kit.Itoa(j)
				for d := 1 + r.Size(0, 12); d > 0; d-- {
					owner[doc] = n
					do(op{Kind: "put", A: n, Doc: doc})
					doc++
				}
				do(op{Kind: "alias", A: "x", B: n})
			}
			if r.P(0.3) { // history of the alias before it rests
				for j := 0; j < k; j++ {
					if n := "i" + kit.Itoa(r.IntN(k)); r.P(0.5) {
						do(op{Kind: "unalias", A: "x", B: n})
						do(op{Kind: "alias", A: "x", B: n})
					}
				}
			}
			if r.P(0.3) {
				do(op{Kind: "put", A: "x", Doc: doc})
				doc++
			}
		})
		if !judge(c, res, map[string]any{"operations": log}) {
			return
		}
		type ask struct{ n, q, e string }
		var asks []ask
		for j := 0; j < 3; j++ {
			e := Pick(r, []string{"all", "hits", "linear", "ranked"})
			q := Pick(r, []string{"w0", "w1", "x0", "x1", "w2 x1"})
			n := "x"
			if r.P(0.15) {
				n = "i" + kit.Itoa(r.IntN(k))
			}
			asks = append(asks, ask{n, q, e})
		}
		first := map[ask][]int{}
		var mu sync.Mutex
		dup := false
		read := func(a ask) {
			c.Op("%v", a)
			x := exec(repo, op{Kind: "search", A: a.n, B: a.q, Eng: a.e})
			c.Eval(1)
			if x.Bad != "" || x.Err {
				c.Fail(map[string]any{"operations": log, "search": fmt.Sprint(a)}, "search fails: %s", x)
			}
			mu.Lock()
			w, ok := first[a]
			if !ok {
				first[a] = x.Docs
			}
			mu.Unlock()
			if ok && !eqInts(w, x.Docs) {
				c.Fail(map[string]any{"operations": log, "search": fmt.Sprint(a), "first": w, "then": x.Docs}, "repeating a search on %q gives the results in another order", a.n)
			}
			// each index's own order
			if a.n == "x" && !dup {
				per := map[string][]int{}
				for _, d := range x.Docs {
					if n, ok := owner[d]; ok {
						per[n] = append(per[n], d)
					}
				}
				for n, l := range per {
					var want []int
					for _, d := range match(m.idx[n], a.q, a.e) {
						if _, ok := owner[d]; ok {
							want = append(want, d)
						}
					}
					if !eqInts(l, want) {
						c.Fail(map[string]any{"operations": log, "search": fmt.Sprint(a), "got": l, "want": want}, "the results of index %q do not keep its order in a search on an alias", n)
					}
				}
			}
			vsched.Yield()
		}
		harmless := []op{{Kind: "drop", A: "nothing"}, {Kind: "rename", A: "nothing", B: "i0"}, {Kind: "unalias", A: "x", B: "nothing"}, {Kind: "alias", A: "x", B: "nothing"}, {Kind: "alias", A: "x", B: "i0"}, {Kind: "list"}, {Kind: "aliases"}, {Kind: "dump"}, {Kind: "search", A: "nothing"}, {Kind: "search", A: "i0", B: "w0", Eng: "hits"}, {Kind: "rename", A: "i0", B: "i0"}}
		var h uint64
		for round := 0; round < 6; round++ {
			n := 1
			if r.P(0.3) {
				n = 2 + r.IntN(2)
			}
			var bodies []func()
			for j := 0; j < n; j++ {
				plan := make([]ask, 4)
				hs := make([]int, 4)
				for z := range plan {
					plan[z] = Pick(r, asks)
					hs[z] = -1
					if r.P(0.3) {
						hs[z] = r.IntN(len(harmless))
						if !has(attached(m, "x"), "i0") && harmless[hs[z]].Kind == "alias" && harmless[hs[z]].B == "i0" {
							hs[z] = -1
						}
					}
				}
				bodies = append(bodies, func() {
					for z, a := range plan {
						if hs[z] >= 0 {
							exec(repo, harmless[hs[z]])
						}
						read(a)
					}
				})
			}
			res := session(c, r, bodies...)
			h ^= res.Hash
			if !judge(c, res, map[string]any{"operations": log}) {
				return
			}
			c.Nontrivial(kit.Hash(res.Hash, strings.Join(log, "\n")))
		}
		if c.WantSample() && len(log) < 30 {
			c.Sample(map[string]any{"operations": log, "searches": fmt.Sprint(first)})
		}
	})
}

func attached(m *model, a string) []string { return m.als[a] }

// ---- R08: user-supplied indices -------------------------------------------------

type recIndex struct {
	name string
	x    *recorder
	mu   chan struct{}
	docs []visigoth.DocRequest
	gen  int
}

type call struct {
	kind, index string
	gen         int
	doc         visigoth.DocRequest
	terms       string
	engine      int
}

type recorder struct {
	log   []call // guarded by the scheduler: one task at a time; see lock
	lock  chan struct{}
	built int
	r     *kit.Rand
	delay []int
}

func (x *recorder) add(c call) {
	x.lock <- struct{}{}
	x.log = append(x.log, c)
	<-x.lock
}

func (x *recorder) pause(k int) {
	for n := x.delay[k%len(x.delay)]; n > 0; n-- {
		vsched.Yield()
	}
}

func (x *recorder) build(name string) visigoth.Index {
	x.pause(len(name))
	x.lock <- struct{}{}
	x.built++
	g := x.built
	x.log = append(x.log, call{kind: "build", index: name, gen: g})
	<-x.lock
	return &recIndex{name: name, x: x, gen: g, mu: make(chan struct{}, 1)}
}

func (i *recIndex) Put(d visigoth.DocRequest) visigoth.Index {
	i.x.pause(i.gen)
	i.x.add(call{kind: "put", index: i.name, gen: i.gen, doc: d})
	i.mu <- struct{}{}
	i.docs = append(i.docs, d)
	<-i.mu
	i.x.pause(i.gen + 1)
	switch kit.Hash(i.gen, d.Name, d.Content) % 6 {
	case 0:
		return nil
	case 1: // what a put returns is not what the name stands for
		return &recIndex{name: "returned by a put into " + i.name, x: i.x, gen: i.gen + 1_000_000, mu: make(chan struct{}, 1)}
	}
	return i
}

func (i *recIndex) Search(terms string, e visigoth.Engine) results {
	i.x.pause(i.gen + 2)
	id := -1
	if e != nil {
		if rs := e(nil, nil); len(rs) == 1 {
			id = rs[0].Hits
		}
	}
	i.x.add(call{kind: "search", index: i.name, gen: i.gen, terms: terms, engine: id})
	i.x.pause(i.gen + 3)
	var out results
	for k := answers(i.gen, terms); k > 0; k-- {
		out = append(out, visigoth.SearchResult{Document: visigoth.NewDoc(i.name, terms), Hits: i.gen})
	}
	return out
}

// answers is how many results a recording index gives: often none.
func answers(gen int, terms string) int { return int(kit.Hash(gen, terms) % 4) }

func sortCalls(l []call) []string {
	out := make([]string, 0, len(l))
	for _, c := range l {
		out = append(out, fmt.Sprintf("%s %q#%d %q/%q/%q/%d %q engine %d", c.kind, c.index, c.gen, c.doc.Name, c.doc.Content, c.doc.Statement(), c.doc.Mime(), c.terms, c.engine))
	}
	sort.Strings(out)
	return out
}

func r08(c *kit.Ctx) {
	newRec := func(r *kit.Rand) *recorder {
		x := &recorder{lock: make(chan struct{}, 1), r: r}
		for k := 0; k < 7; k++ {
			d := 0
			if r.P(0.5) {
				d = r.IntN(10)
			}
			x.delay = append(x.delay, d)
		}
		return x
	}
	engine := func(id int) visigoth.Engine {
		if id < 0 {
			return nil
		}
		return func([]string, visigoth.Indexer) results { return results{{Hits: id}} }
	}
	anyDoc := func(r *kit.Rand) visigoth.DocRequest {
		d := kit.Req(r, r.Name(5), r.Bytes(4), r.Bytes(4))
		if r.P(0.3) {
			d = visigoth.NewDocRequestWithMime(r.Name(5), r.Bytes(4), visigoth.MimeType(r.IntN(256)))
		}
		return d
	}
	c.Cases("sequences", 0, c.N(2000, 100000), func(r *kit.Rand, i int) {
		log := []string{}
		x := newRec(r)
		names := universe(r)
		nops := r.Size(4, 40)
		res := session(c, r, func() {
			repo := visigoth.NewIndexRepo(x.build)
			gens := map[string]int{} // the model: which built index has which name
			als := map[string][]string{}
			built := 0
			resolve := func(n string) []string {
				if _, ok := gens[n]; ok {
					return []string{n}
				}
				return als[n]
			}
			orig := map[int]string{} // name an index was built under
			for k := 0; k < nops; k++ {
				var want []call
				x.log = nil
				what := ""
				n := Pick(r, names)
				switch z := r.IntN(12); {
				case z < 5:
					d := anyDoc(r)
					what = fmt.Sprintf("Put(%q, {%s %s %s})", n, kit.Clip(d.Name), kit.Clip(d.Content), kit.Clip(d.Statement()))
					log = append(log, what)
					c.Op("%s", what)
					l := resolve(n)
					if len(l) == 0 {
						built++
						gens[n] = built
						orig[built] = n
						want = append(want, call{kind: "build", index: n, gen: built})
						l = []string{n}
					}
					for _, y := range l {
						want = append(want, call{kind: "put", index: orig[gens[y]], gen: gens[y], doc: d})
					}
					repo.Put(n, d)
				case z < 8:
					terms, id := r.Bytes(3), r.IntN(1000)
					if r.P(0.1) { // none: that, too, is the index's affair
						id = -1
					}
					what = fmt.Sprintf("Search(%q, %s, engine %d)", n, kit.Clip(terms), id)
					log = append(log, what)
					c.Op("%s", what)
					l := resolve(n)
					var wantRes []string
					for _, y := range l {
						want = append(want, call{kind: "search", index: orig[gens[y]], gen: gens[y], terms: terms, engine: id})
						for k := answers(gens[y], terms); k > 0; k-- {
							wantRes = append(wantRes, fmt.Sprintf("%q %q %d", orig[gens[y]], terms, gens[y]))
						}
					}
					st, err := repo.Search(n, terms, engine(id))
					got := append([]call{}, x.log...)
					if (err != nil) != (len(l) == 0) {
						c.Fail(map[string]any{"operations": log}, "%s: error %v with %d indices addressed", what, err, len(l))
					}
					if a, b := sortCalls(got), sortCalls(want); !eqStrings(a, b) {
						c.Fail(map[string]any{"operations": log, "got": a, "want": b}, "%s: the indices were called %q, want %q", what, a, b)
					}
					if err == nil {
						var gotRes []string
						for st.Next() {
							d := st.Data()
							gotRes = append(gotRes, fmt.Sprintf("%q %q %d", d.Document.Name, d.Document.Content, d.Hits))
						}
						sort.Strings(gotRes)
						sort.Strings(wantRes)
						if !eqStrings(gotRes, wantRes) {
							c.Fail(map[string]any{"operations": log}, "%s: the results are %q, want what each index returned: %q", what, gotRes, wantRes)
						}
					}
				case z < 9:
					m := Pick(r, names)
					what = fmt.Sprintf("Alias(%q, %q)", n, m)
					log = append(log, what)
					repo.Alias(n, m)
					if _, ok := gens[m]; ok {
						als[n] = with(als[n], m)
					}
				case z < 10:
					m := Pick(r, names)
					what = fmt.Sprintf("UnAlias(%q, %q)", n, m)
					log = append(log, what)
					repo.UnAlias(n, m)
					if _, ok := gens[m]; ok || m == "" {
						als[n] = without(als[n], m)
						if m == "" {
							als[n] = nil
						}
					}
				case z < 11:
					m := Pick(r, names)
					what = fmt.Sprintf("Rename(%q, %q)", n, m)
					log = append(log, what)
					repo.Rename(n, m)
					if g, ok := gens[n]; ok && n != m {
						delete(gens, n)
						gens[m] = g
						for a, l := range als {
							if has(l, n) {
								als[a] = with(without(l, n), m)
							}
						}
					}
				default:
					what = fmt.Sprintf("Drop(%q) and listings", n)
					log = append(log, what)
					repo.Drop(n)
					delete(gens, n)
					for a, l := range als {
						als[a] = without(l, n)
					}
					repo.List()
					repo.ListAliases()
					repo.Has(n)
					repo.HasAlias(n)
				}
				c.Eval(1)
				got := append([]call{}, x.log...)
				if a, b := sortCalls(got), sortCalls(want); !eqStrings(a, b) {
					c.Fail(map[string]any{"operations": log, "got": a, "want": b}, "%s: when it returned the builder and indices had been called %q, want %q", what, a, b)
				}
				if len(got) > 0 && got[0].kind != "build" {
					for _, y := range got {
						if y.kind == "build" {
							c.Fail(map[string]any{"operations": log}, "%s: a document is delivered before its index is built", what)
						}
					}
				}
			}
			// nothing more may arrive
			n := len(x.log)
			for k := 0; k < 50; k++ {
				vsched.Yield()
			}
			if len(x.log) != n {
				c.Fail(map[string]any{"operations": log}, "an index was called after the operation had returned")
			}
		})
		if judge(c, res, map[string]any{"operations": log}) {
			c.Nontrivial(kit.Hash(strings.Join(log, "\n")))
			if c.WantSample() && len(log) < 20 {
				c.Sample(log)
			}
		}
	})
	c.Cases("concurrent", 1_000_000, c.N(2000, 100000), func(r *kit.Rand, i int) {
		// puts and searches from several clients on names that stay what they are
		x := newRec(r)
		var repo *visigoth.IndexRepo
		setup := []string{}
		als := map[string][]string{}
		res := session(c, r, func() {
			repo = visigoth.NewIndexRepo(x.build)
			for k := r.IntN(4); k > 0; k-- {
				n := "i" + kit.Itoa(k)
				repo.Put(n, anyDoc(r))
				setup = append(setup, n)
				a := "x" + kit.Itoa(r.IntN(2))
				repo.Alias(a, n)
				als[a] = with(als[a], n)
			}
		})
		if !judge(c, res, nil) {
			return
		}
		x.log = nil
		nc := 2 + r.IntN(3)
		plans := make([][]string, nc)
		// searches: sometimes all clients make the same ones
		searches := map[string]func() call{}
		same := r.P(0.5)
		sharedEngine := engine(7)
		var want []call
		names := append([]string{"n0", "n1"}, setup...)
		for a := range als {
			names = append(names, a)
		}
		sort.Strings(names)
		docs := map[string]visigoth.DocRequest{}
		creates := map[string]bool{}
		for k := range plans {
			for j := 1 + r.IntN(3); j > 0; j-- {
				n := Pick(r, names)
				key := fmt.Sprintf("%d/%d/%s", k, j, n)
				plans[k] = append(plans[k], key)
				if r.P(0.45) {
					if same {
						n = names[0]
						if len(setup) > 0 && r.P(0.7) {
							n = names[len(names)-1]
						}
						key = fmt.Sprintf("%d/%d/%s", k, j, n)
						plans[k][len(plans[k])-1] = key
					}
					id, terms, e := 100*k+j+1000, "t"+kit.Itoa(k)+kit.Itoa(j), sharedEngine
					if same {
						id, terms = 7, "t"
					} else {
						e = engine(id)
					}
					searches[key] = func() call {
						st, err := repo.Search(n, terms, e)
						if err != nil {
							return call{}
						}
						cnt := 0
						for st.Next() {
							cnt++
						}
						return call{kind: "search", terms: terms, engine: id, gen: cnt}
					}
					continue
				}
				d := anyDoc(r)
				d.Name = key
				docs[key] = d
				l := als[n]
				if len(l) == 0 {
					l = []string{n}
					if !has(setup, n) {
						creates[n] = true
					}
				}
				for _, y := range l {
					want = append(want, call{kind: "put", index: y, doc: d})
				}
			}
		}
		for n := range creates {
			want = append(want, call{kind: "build", index: n})
		}
		gens := map[string][]int{} // what is behind the names made beforehand
		for k, n := range setup {
			gens[n] = []int{k + 1}
		}
		for a, l := range als {
			for _, n := range l {
				gens[a] = append(gens[a], gens[n]...)
			}
		}
		var made []call // searches that found something to search
		var bodies []func()
		for k := range plans {
			bodies = append(bodies, func() {
				for _, key := range plans[k] {
					n := key[strings.LastIndexByte(key, '/')+1:]
					if f := searches[key]; f != nil {
						z := f()
						c.Eval(1)
						l := als[n]
						if len(l) == 0 {
							l = []string{n}
						}
						if z.kind == "" {
							if len(als[n]) > 0 || has(setup, n) {
								c.Fail(map[string]any{"plans": plans, "aliases": als}, "Search(%q) fails though it exists", n)
							}
							continue
						}
						x.lock <- struct{}{}
						for _, y := range l {
							made = append(made, call{kind: "search", index: y, terms: z.terms, engine: z.engine})
						}
						<-x.lock
						if cnt, ok := gens[n]; ok {
							w := 0
							for _, g := range cnt {
								w += answers(g, z.terms)
							}
							if w != z.gen {
								c.Fail(map[string]any{"plans": plans, "aliases": als}, "Search(%q) gives %d results, the indices addressed returned %d", n, z.gen, w)
							}
						}
						continue
					}
					repo.Put(n, docs[key])
					// delivered before Put returns
					x.lock <- struct{}{}
					cnt := 0
					for _, y := range x.log {
						if y.kind == "put" && y.doc.Name == key {
							cnt++
						}
					}
					<-x.lock
					w := len(als[n])
					if w == 0 {
						w = 1
					}
					c.Eval(1)
					if cnt != w {
						c.Fail(map[string]any{"plans": plans, "aliases": als}, "when Put(%q) returned its document had been delivered %d times, want %d", n, cnt, w)
					}
				}
			})
		}
		res = session(c, r, bodies...)
		if !judge(c, res, map[string]any{"plans": plans, "aliases": als}) {
			return
		}
		got := append([]call{}, x.log...)
		for k := range got {
			got[k].gen = 0
		}
		want = append(want, made...)
		c.Eval(1)
		if a, b := sortCalls(got), sortCalls(want); !eqStrings(a, b) {
			c.Fail(map[string]any{"plans": plans, "aliases": als, "got": a, "want": b}, "concurrent puts and searches: the builder and indices were called %d times, want %d (or otherwise)", len(a), len(b))
		}
		c.Nontrivial(kit.Hash(res.Hash, fmt.Sprint(plans), fmt.Sprint(als)))
	})
}
