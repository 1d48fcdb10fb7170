// Command selftest runs the reference model on the official JSON Schema test suite
// (the copy in the repository under test). It does not involve the library at all.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifmc/model"
)

func main() {
	dir := os.Args[1]
	docs := map[string]*model.V{}
	for _, r := range []string{"integer.json", "name.json", "subSchemas.json", "folder/folderInteger.json"} {
		b, err := os.ReadFile(filepath.Join(dir, "remotes", r))
		if err == nil {
			docs["http://localhost:1234/"+r] = model.MustParse(string(b))
		}
	}
	n, bad := 0, 0
	for name, d := range map[string]model.Draft{"draft4": model.D4, "draft6": model.D6, "draft7": model.D7} {
		files, _ := filepath.Glob(filepath.Join(dir, name, "*.json"))
		more, _ := filepath.Glob(filepath.Join(dir, name, "optional", "*.json"))
		files = append(files, more...)
		for _, f := range files {
			base := filepath.Base(f)
			if base == "format.json" && strings.Contains(f, "optional") || base == "content.json" || base == "ecmascript-regex.json" || base == "zeroTerminatedFloats.json" {
				continue // formats and behaviour the library documents differently
			}
			b, err := os.ReadFile(f)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			var groups []struct {
				Description string
				Schema      interface{}
				Tests       []struct {
					Description string
					Data        interface{}
					Valid       bool
				}
			}
			dec := json.NewDecoder(bytes.NewReader(b))
			dec.UseNumber()
			if err := dec.Decode(&groups); err != nil {
				fmt.Fprintln(os.Stderr, f, err)
				os.Exit(2)
			}
			for _, g := range groups {
				w := model.NewWorld(d, model.FromGo(g.Schema))
				w.AutoDetect = true
				for u, v := range docs {
					w.Docs[u] = v
				}
				for _, m := range []model.Draft{model.D4, model.D6, model.D7} {
					w.Docs[model.MetaURL(m)] = model.MustParse(model.OfficialMeta[m])
				}
				for _, t := range g.Tests {
					n++
					if got := w.Valid(model.FromGo(t.Data)); got != t.Valid {
						bad++
						fmt.Printf("MODEL DISAGREES %s: %s / %s: model %v, suite %v\n", f, g.Description, t.Description, got, t.Valid)
					}
				}
			}
		}
	}
	fmt.Printf("model self-test: %d tests of the JSON Schema test suite, %d disagreements\n", n, bad)
	if bad > 0 || n < 500 {
		os.Exit(1)
	}
}
