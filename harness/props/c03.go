package props

import (
	"path/filepath"
	"strings"
	"time"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C03", Level: "exploration", Run: runC03,
		Rule:  "every feature file (one construct each) and generated file sets with comments sprinkled at random places (above, inline, detached, in blocks, C style, before and after closing braces) in random layouts are formatted, in place and to standard output; the result is compiled by protoc, its descriptors compared with the original's, and every comment is looked up with the definitions it stands between. Non-trivial: the text changed; distinct by the source text.",
		Notes: []string{"comment text is compared line by line without markers and outer blanks", "a comment inside a statement may come out before or after it"}})
}

func runC03(c *core.Ctx) {
	c.Named("feature", featureNames(), func(cs *core.Case) {
		f, p, ok := writeFeature(cs, "")
		if !ok {
			cs.C.Count("features_protoc_rejects", 1)
			return
		}
		rel := "f/" + f.name + ".proto"
		want, _ := descriptors(cs, cs.W, rel)
		r := cs.Run(core.Opt{Timeout: 8 * time.Second}, "format", "-w", p)
		if r.Code != 0 || r.Hung {
			cs.Fatal("format fails on a file protoc accepts: %s", r)
		}
		out := cs.Read(p)
		if d := sameMeaning(cs, want, cs.W, []string{rel}, map[string]string{rel: f.src}, map[string]string{rel: out}); d != "" {
			cs.Fatal("%s\n--- source\n%s\n--- formatted\n%s", d, f.src, out)
		}
		if out != f.src {
			cs.Sig(f.name)
		}
		cs.C.Count("features", 1)
	})
	c.Each("set", c.N(250, 6000), func(cs *core.Case) {
		r := cs.R
		s := pgen.Generate(r, fmtCfg(cs))
		before := map[string]string{}
		var files []string
		writeSet(cs, s, "")
		for _, f := range s.Files {
			t := f.Render()
			switch r.Intn(4) {
			case 0:
			case 1:
				t = pgen.Reindent(r, t)
			default:
				t = pgen.Reindent(r, pgen.Sprinkle(r, t, 1+r.Intn(30)))
			}
			before[f.Path] = t
			files = append(files, f.Path)
			cs.Write(f.Path, t)
		}
		want, errs := descriptors(cs, cs.W, files...)
		if errs != "" {
			cs.Fatal("generator: %s", errs)
		}
		cs.Write("prototool.yaml", "protoc:\n  allow_unused_imports: true\n")
		after := map[string]string{}
		one := ""
		if chance(r, 30) {
			one = files[r.Intn(len(files))]
			o := cs.P("format", one)
			after["one"] = o.Out
		}
		res := cs.P("format", "-w", ".")
		if res.Code != 0 {
			cs.Fatal("format: %s", res)
		}
		for _, f := range files {
			after[f] = cs.Read(f)
			if after[f] != before[f] {
				cs.Sig(before[f])
			}
			cs.C.Count("files", 1)
			cs.C.Count("comments", int64(len(pgen.Comments(before[f]))))
		}
		if one != "" && strings.TrimSpace(after["one"]) != strings.TrimSpace(after[one]) {
			cs.Fatal("format %s prints something else than format -w writes: %s", one, firstDiff(after[one], after["one"]))
		}
		if d := sameMeaning(cs, want, cs.W, files, before, after); d != "" {
			n := strings.SplitN(d, " ", 2)[0]
			n = strings.TrimSuffix(n, ":")
			cs.Fatal("%s\n--- source\n%s\n--- formatted\n%s", d, before[n], after[n])
		}
		cs.Sample("%d files, %s", len(files), filepath.Base(files[0]))
	})
}
