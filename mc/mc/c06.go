package main

import (
	"fmt"
	"net/url"
	"sort"
	"strings"
	"sync"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
)

// hosts hands out host names, so that parallel cases do not see each other's web pages.
var hosts = func() chan string {
	ch := make(chan string, 64)
	for i := 0; i < 64; i++ {
		ch <- fmt.Sprintf("h%02d.test", i)
	}
	return ch
}()

// loaderDocs are the documents histories register; HOST stands for the host of the case.
var loaderDocs = map[string]string{
	"leaf1":   `{"type":"string","pattern":"^l1$"}`,
	"leaf2":   `{"type":"string","pattern":"^l2$"}`,
	"defs":    `{"type":"string","pattern":"^m$","definitions":{"x":{"type":"string","pattern":"^mx$"},"y":{"$ref":"b.json"}}}`,
	"rel":     `{"$ref":"b.json"}`,
	"up":      `{"$ref":"../a.json#/definitions/x"}`,
	"idb":     `{"$id":"http://HOST/b.json","type":"string","pattern":"^idb$"}`,
	"idb2":    `{"$id":"http://HOST/b.json","type":"string","pattern":"^idb2$"}`,
	"ida":     `{"$id":"http://HOST/a.json","type":"string","pattern":"^ida$","definitions":{"x":{"type":"string","pattern":"^idax$"}}}`,
	"outer":   `{"$id":"http://HOST/n/outer.json","definitions":{"i":{"$id":"inner.json","type":"string","pattern":"^in$"},"p":{"$id":"#pl","type":"string","pattern":"^pl$"}},"properties":{"r":{"$ref":"inner.json"},"s":{"$ref":"b.json"}},"type":"object"}`,
	"nested":  `{"definitions":{"z":{"$id":"http://HOST/z2.json","type":"string","pattern":"^z2$","definitions":{"x":{"type":"string","pattern":"^z2x$"}}}}}`,
	"mutualA": `{"type":"object","properties":{"r":{"$ref":"b.json"},"k":{"type":"string","pattern":"^mutA$"}},"required":["k"]}`,
	"mutualB": `{"type":"object","properties":{"r":{"$ref":"a.json"},"k":{"type":"string","pattern":"^mutB$"}},"required":["k"]}`,
	"bad":     `{"type":"string","pattern":"^bad$"`,
	"root1":   `{"properties":{"r":{"$ref":"http://HOST/a.json"},"s":{"$ref":"http://HOST/b.json"}}}`,
	"root2":   `{"$id":"http://HOST/sub/root.json","properties":{"r":{"$ref":"b.json"},"s":{"$ref":"../b.json"}}}`,
	"root3":   `{"$ref":"http://HOST/n/inner.json"}`,
	"root4":   `{"properties":{"r":{"$ref":"http://HOST/w.json#wp"},"s":{"$ref":"http://HOST/w.json#/definitions/q"}}}`,
	"root6":   `{"properties":{"r":{"$ref":"file:///mcfs/b.json"},"s":{"$ref":"file:///mcfs/c.json"}}}`,
	"root5":   `{"properties":{"r":{"$ref":"http://HOST/a.json#/definitions/x"},"s":{"$ref":"http://HOST/z2.json#/definitions/x"}}}`,
}

// loaderWeb is what the web has at the location of a reference.
var loaderWeb = map[string]string{
	"/a.json":       `{"type":"string","pattern":"^wa$","definitions":{"x":{"type":"string","pattern":"^wax$"},"y":{"$ref":"b.json"}}}`,
	"/b.json":       `{"type":"string","pattern":"^wb$"}`,
	"/sub/b.json":   `{"type":"string","pattern":"^wsb$"}`,
	"/n/inner.json": `{"type":"string","pattern":"^wi$"}`,
	"/n/b.json":     `{"type":"string","pattern":"^wnb$"}`,
	"/f.json":       `{"$ref":"file:///mcfs/b.json"}`,
	"/w.json":       `{"definitions":{"p":{"$id":"#wp","type":"string","pattern":"^wp$"},"q":{"$ref":"sub/b.json"}}}`,
}

// loaderFiles are the files of two file systems; none of them exists in the real one.
var loaderFiles = map[string]map[string]string{
	"A": {
		"/mcfs/a.json":     `{"properties":{"r":{"$ref":"b.json"},"s":{"$ref":"http://HOST/b.json"}}}`,
		"/mcfs/b.json":     `{"type":"string","pattern":"^fa$"}`,
		"/mcfs/sub/u.json": `{"properties":{"r":{"$ref":"../b.json"},"s":{"$ref":"../c.json"}}}`,
		"/mcfs/c.json":     `{"type":"string","pattern":"^fc$"}`,
	},
	"B": {
		"/mcfs/a.json":     `{"properties":{"s":{"$ref":"b.json"},"r":{"$ref":"http://HOST/f.json"}}}`,
		"/mcfs/b.json":     `{"type":"string","pattern":"^fb$"}`,
		"/mcfs/sub/u.json": `{"properties":{"s":{"$ref":"../b.json"},"r":{"$ref":"../c.json"}}}`,
	},
}

func merged(a, b map[string]*model.V) map[string]*model.V {
	r := map[string]*model.V{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		r[k] = v
	}
	return r
}

func loaderProbes() []*Inst {
	var r []*Inst
	for _, f := range []string{"l1", "l2", "m", "mx", "idb", "idb2", "ida", "idax", "in", "pl", "z2", "z2x", "bad", "wa", "wax", "wb", "wsb", "wi", "wnb", "wp", "fa", "fb", "fc"} {
		r = append(r, inst(q(f)), inst(`{"r":`+q(f)+`}`), inst(`{"s":`+q(f)+`}`))
	}
	for _, k := range []string{"mutA", "mutB", "x"} {
		r = append(r, inst(`{"k":`+q(k)+`}`))
		for _, l := range []string{"mutA", "mutB", "l2", "wb"} {
			r = append(r, inst(`{"k":`+q(k)+`,"r":{"k":`+q(l)+`}}`), inst(`{"k":`+q(k)+`,"r":{"k":"mutB","r":{"k":`+q(l)+`}}}`))
		}
		r = append(r, inst(`{"k":`+q(k)+`,"r":"wb"}`), inst(`{"k":`+q(k)+`,"r":"wa"}`))
	}
	return append(r, inst("{}"), inst("1"), inst(`{"r":{"k":"mutA"}}`), inst(`{"r":{"k":"mutB"}}`))
}

var (
	probes  = loaderProbes()
	probeGo = func() (r []interface{}) {
		for _, p := range probes {
			r = append(r, p.V.Go())
		}
		return
	}()
	parsedMu sync.Mutex
	parsed   = map[string]*model.V{}
)

// parse parses a document of the histories once.
func parse(t string) *model.V {
	parsedMu.Lock()
	defer parsedMu.Unlock()
	v := parsed[t]
	if v == nil {
		v = model.MustParse(t)
		parsed[t] = v
	}
	return v
}

// LoaderHist is a history of calls on one or two schema loaders.
type LoaderHist struct {
	Ops []string `json:"calls"`
}

func init() {
	kinds["loader-history"] = func() Case { return &LoaderHist{} }
	checks["C06"] = c06
}

// Kind names the case type.
func (c *LoaderHist) Kind() string { return "loader-history" }

// loaderState is the model of one schema loader.
type loaderState struct {
	docs    map[string]*model.V // registered or fetched: URL -> document
	ids     map[string]bool     // every identifier that is taken
	tainted map[string]bool     // unspecified after a failed call
	dead    bool
	sl      *gjs.SchemaLoader
	anon    int
	open    []*compiled
}

type compiled struct {
	s    *gjs.Schema
	want []bool
	how  string
	at   int
}

func (l *loaderState) world(web map[string]*model.V) *model.World {
	w := &model.World{Draft: model.Hybrid, AutoDetect: true, Docs: map[string]*model.V{}, RootURL: "none:"}
	for u, d := range l.docs {
		w.Docs[u] = d
	}
	for u, d := range web {
		if !l.ids[u] {
			w.Docs[u] = d
		}
	}
	return w
}

func (l *loaderState) take(u string, doc *model.V) {
	l.docs[u] = doc
	w := &model.World{Draft: model.Hybrid, AutoDetect: true, Docs: map[string]*model.V{u: doc}}
	for _, id := range w.IDs() {
		l.ids[id] = true
	}
}

func rootID(doc *model.V) string {
	if doc.K == model.Obj {
		if id, ok := doc.M["$id"]; ok {
			return id.S
		}
	}
	return ""
}

// Run executes the history on the library and on the model.
func (c *LoaderHist) Run(st *Stat) *Fail {
	host := <-hosts
	h := web.host(host)
	defer func() { web.drop(host); hosts <- host }()
	sub := func(s string) string { return strings.ReplaceAll(s, "HOST", host) }
	pages := map[string]*model.V{}
	fss := map[string]*memFS{}
	files := map[string]map[string]*model.V{}
	for n, fs := range loaderFiles {
		fss[n] = &memFS{files: map[string]string{}}
		files[n] = map[string]*model.V{}
		for f, t := range fs {
			fss[n].files[f] = sub(t)
			files[n]["file://"+f] = parse(sub(t))
		}
	}
	for p, t := range loaderWeb {
		h.pages[p] = &webPage{Status: 200, Body: sub(t)}
		pages["http://"+host+p] = parse(sub(t))
	}
	st.States++
	loaders := map[string]*loaderState{}
	get := func(n string) *loaderState {
		l := loaders[n]
		if l == nil {
			l = &loaderState{docs: map[string]*model.V{}, ids: map[string]bool{}, tainted: map[string]bool{}, sl: gjs.NewSchemaLoader()}
			loaders[n] = l
		}
		return l
	}
	for i, op := range c.Ops {
		st.Transitions++
		name := "1"
		if strings.HasPrefix(op, "2:") {
			name, op = "2", op[2:]
		}
		l := get(name)
		if l.dead {
			return nil
		}
		f := strings.Fields(op)
		at := fmt.Sprintf("call %d of %v", i+1, c.Ops)
		logFrom := len(h.log)
		pages := pages
		fsName := ""
		if strings.HasPrefix(f[0], "fs") { // a call with a reference loader of a file system
			fsName = f[0][2:]
			f = f[1:]
			if f[0] == "compile" {
				pages = merged(pages, files[fsName])
			}
		}
		for _, fs := range fss {
			fs.log = nil
		}
		switch f[0] {
		case "add":
			u := sub(f[1])
			var text string
			var loader gjs.JSONLoader
			if fsName != "" {
				text = fss[fsName].files[f[2]]
				loader = gjs.NewReferenceLoaderFileSystem("file://"+f[2], fss[fsName])
			} else {
				text = sub(generated(f[2]))
				loader = gjs.NewStringLoader(text)
			}
			err := l.sl.AddSchema(u, loader)
			key := strings.TrimSuffix(u, "#")
			if len(h.log) != logFrom {
				return failf("%s: AddSchema fetches %v", at, h.log[logFrom:])
			}
			if f[2] == "bad" {
				if err == nil {
					return failf("%s: AddSchema of malformed JSON succeeds", at)
				}
				continue
			}
			doc := parse(text)
			if l.tainted[key] || l.tainted[rootID(doc)] {
				return nil
			}
			if l.ids[key] || rootID(doc) != "" && rootID(doc) != key && l.ids[rootID(doc)] {
				if err == nil {
					return failf("%s: AddSchema(%s) registers a URL or identifier that is already registered, without an error", at, u)
				}
				if !l.ids[key] {
					l.tainted[key] = true
				}
				continue
			}
			if rootID(doc) == key {
				return nil // registered under its own identifier
			}
			if err != nil {
				return failf("%s: AddSchema(%s, %s) fails: %v", at, u, text, err)
			}
			l.take(key, doc)
		case "adds":
			var ls []gjs.JSONLoader
			wantErr := false
			for _, d := range f[1:] {
				ls = append(ls, gjs.NewStringLoader(sub(generated(d))))
			}
			err := l.sl.AddSchemas(ls...)
			if len(h.log) != logFrom {
				return failf("%s: AddSchemas fetches %v", at, h.log[logFrom:])
			}
			for _, d := range f[1:] {
				if d == "bad" {
					wantErr = true
					break
				}
				doc := parse(sub(generated(d)))
				id := rootID(doc)
				if l.tainted[id] {
					return nil
				}
				nested := (&model.World{Draft: model.Hybrid, AutoDetect: true, Docs: map[string]*model.V{"none:" + d: doc}}).IDs()
				dup := false
				for _, n := range nested {
					dup = dup || l.ids[n]
				}
				if id != "" && l.ids[id] {
					wantErr = true
					break
				}
				if dup {
					return nil // a nested identifier is registered twice: outside the claims
				}
				if id != "" {
					l.take(id, doc)
				} else {
					l.take("none:"+d, doc)
				}
			}
			if (err != nil) != wantErr {
				return failf("%s: AddSchemas(%v): error %v, expected an error: %v", at, f[1:], err, wantErr)
			}
		case "compile", "root":
			w := l.world(pages)
			w.Touched = map[string]bool{}
			var loader gjs.JSONLoader
			var rootErr error
			wantErr := false
			if f[0] == "compile" {
				u := sub(f[1])
				loader = gjs.NewReferenceLoader(u)
				if fsName != "" {
					loader = gjs.NewReferenceLoaderFileSystem(u, fss[fsName])
				}
				pu, _ := url.Parse(u)
				w.Root, rootErr = w.Lookup(pu)
			} else {
				if l.anon > 0 {
					return nil
				}
				l.anon++
				text := sub(generated(f[1]))
				doc := parse(text)
				if id := rootID(doc); id != "" && l.ids[id] {
					wantErr = true
				} else if l.tainted[id] {
					return nil
				}
				loader = gjs.NewStringLoader(text)
				if len(f) > 2 && f[2] == "raw" {
					loader = gjs.NewRawLoader(doc.Go())
				}
				if len(f) > 2 && f[2] == "go" {
					loader = gjs.NewGoLoader(doc.Go())
				}
				w.Docs[""] = doc
				w.RootURL = ""
				w.Root = doc
			}
			if rootErr == nil && !wantErr {
				rootErr = w.CheckRefs()
			}
			fetchable := map[string]bool{}
			for u := range w.Touched {
				if l.tainted[u] {
					return nil
				}
				if pages[u] != nil && !l.ids[u] || pages[u] == nil && !l.ids[u] {
					fetchable[strings.TrimPrefix(u, "http://"+host)] = true
				}
			}
			s, err := l.sl.Compile(loader)
			st.Traces++
			for _, p := range h.log[logFrom:] {
				if rootErr == nil && !wantErr && !fetchable[p] || l.ids["http://"+host+p] {
					return failf("%s: compiling fetches %s although it is registered, or nothing refers to it", at, p)
				}
			}
			for n, fs := range fss {
				for _, p := range fs.log {
					if n != fsName || l.ids["file://"+p] || rootErr == nil && !wantErr && !w.Touched["file://"+p] {
						return failf("%s: compiling reads %s of file system %s although it is registered, in another file system, or nothing refers to it", at, p, n)
					}
				}
				if fs.opened != fs.closed {
					return failf("%s: files are still open", at)
				}
			}
			if wantErr {
				if err == nil {
					return failf("%s: compiling a schema whose identifier is already registered succeeds", at)
				}
				l.dead = true
				continue
			}
			if rootErr != nil {
				if err == nil || s != nil {
					return failf("%s: compiling succeeds although a reference identifies nothing (%v)", at, rootErr)
				}
				for u := range w.Touched {
					if pages[u] != nil && !l.ids[u] {
						l.tainted[u] = true
					}
				}
				st.outcome("unresolvable")
				if f[0] == "root" {
					l.dead = true
				}
				continue
			}
			if err != nil || s == nil {
				return failf("%s: compiling fails: %v", at, err)
			}
			if f[0] == "root" {
				l.take("", w.Root)
			}
			for u := range w.Touched {
				if pages[u] != nil && !l.ids[u] {
					l.take(u, pages[u])
				}
			}
			co := &compiled{s: s, how: fmt.Sprintf("%s (loader %s)", at, name), at: i}
			for _, p := range probes {
				co.want = append(co.want, w.ValidAt(w.Root, p.V))
			}
			st.Transitions += w.Steps
			l.open = append(l.open, co)
			if msg := co.check(st); msg != "" {
				return &Fail{Msg: msg}
			}
		}
	}
	// schemas compiled earlier keep their meaning
	for _, n := range []string{"1", "2"} {
		if l := loaders[n]; l != nil {
			for _, co := range l.open {
				if co.at == len(c.Ops)-1 {
					continue
				}
				if msg := co.check(st); msg != "" {
					return failf("after %v: %s", c.Ops, msg)
				}
			}
		}
	}
	return nil
}

func (co *compiled) check(st *Stat) string {
	nv := 0
	for i, p := range probes {
		res, err := co.s.Validate(gjs.NewRawLoader(probeGo[i]))
		if err != nil {
			return fmt.Sprintf("%s: validating %s: %v", co.how, p.T, err)
		}
		if res.Valid() != co.want[i] {
			return fmt.Sprintf("%s: document %s: library says valid=%v, the registered documents say %v", co.how, p.T, res.Valid(), co.want[i])
		}
		if co.want[i] {
			nv++
		}
	}
	st.outcome(fmt.Sprintf("accepts %d of %d probes", nv, len(probes)))
	return ""
}

var loaderOps = []string{
	"add http://HOST/a.json leaf1", "add http://HOST/a.json# defs", "add http://HOST/b.json leaf2", "add http://HOST/sub/c.json rel", "add http://HOST/sub/c.json up", "add http://HOST/z.json idb", "add http://HOST/a.json bad",
	"add http://HOST/a.json mutualA", "add http://HOST/b.json mutualB",
	"adds idb", "adds outer", "adds ida idb", "adds idb idb2", "adds nested", "adds bad ida", "adds nested outer ida",
}

var loaderCompiles = []string{
	"compile http://HOST/a.json", "compile http://HOST/a.json#/definitions/x", "compile http://HOST/a.json#/definitions/y", "compile http://HOST/b.json", "compile http://HOST/sub/c.json", "compile http://HOST/n/outer.json", "compile http://HOST/n/inner.json", "compile http://HOST/n/outer.json#pl", "compile http://HOST/z2.json#/definitions/x", "compile http://HOST/z.json", "compile http://HOST/missing.json",
	"root root1", "root root2", "root root3 raw", "root root4 go", "root root5",
}

func c06(c *Ctx) {
	c.Assume = []string{"the network is an in-process table of pages; nothing is fetched over a real connection", "not enumerated: the state after a failed registration of that same URL, two anonymous Compile calls on one loader, an identifier registered twice below the root of a document"}
	c.Rule = "every sequence of calls up to the bound that ends in a Compile, executed from a fresh loader; the model is a map from URI to document; every schema compiled on the way is probed with every fingerprint document right after its compilation and at the end"
	all := append(append([]string{}, loaderOps...), loaderCompiles...)
	seqs := func(depth int, ops []string, last []string, emit func(Case)) {
		for n := 1; n <= depth; n++ {
			tuples(ops, n-1, func(t []string) {
				for _, l := range last {
					emit(&LoaderHist{Ops: append(append([]string{}, t...), l)})
				}
			})
		}
	}
	n := c.Pick(4, 5)
	c.Section("one loader", fmt.Sprintf("%d calls, sequences of length <= %d ending in Compile", len(all), n), asc, func(emit func(Case)) { seqs(n, all, loaderCompiles, emit) })
	c.Section("one loader, other member order", fmt.Sprintf("%d calls, length <= %d", len(all), n-1), both[1:], func(emit func(Case)) { seqs(n-1, all, loaderCompiles, emit) })
	var two []string
	for _, o := range []string{"add http://HOST/a.json leaf1", "add http://HOST/b.json leaf2", "adds ida idb", "adds outer", "compile http://HOST/a.json", "compile http://HOST/b.json", "compile http://HOST/n/outer.json", "root root1"} {
		two = append(two, o, "2:"+o)
	}
	var lastTwo []string
	for _, o := range two {
		if strings.Contains(o, "compile") || strings.Contains(o, "root ") {
			lastTwo = append(lastTwo, o)
		}
	}
	c.Section("two loaders", fmt.Sprintf("%d calls, length <= %d", len(two), n), asc, func(emit func(Case)) { seqs(n, two, lastTwo, emit) })
	var fsOps, fsLast []string
	for _, n := range []string{"A", "B"} {
		for _, u := range []string{"file:///mcfs/a.json", "file:///mcfs/b.json", "file:///mcfs/sub/u.json", "http://HOST/f.json"} {
			fsLast = append(fsLast, "fs"+n+" compile "+u)
		}
		fsOps = append(fsOps, "fs"+n+" add file:///mcfs/c.json /mcfs/b.json", "fs"+n+" add http://HOST/b.json /mcfs/b.json")
	}
	fsLast = append(fsLast, "compile http://HOST/f.json", "compile http://HOST/b.json", "compile file:///mcfs/b.json", "root root6", "root root1")
	fsOps = append(fsOps, "add file:///mcfs/b.json leaf1", "add file:///mcfs/c.json rel")
	fsOps = append(fsOps, fsLast...)
	c.Section("file systems", fmt.Sprintf("%d calls with loaders of two file systems, the web and strings, length <= %d", len(fsOps), n), asc, func(emit func(Case)) { seqs(n, fsOps, fsLast, emit) })
	similar(c)
	largeLoaders(c)
	sort.Strings(c.Assume)
}
