package props

import (
	"strings"
	"time"

	"verif/harness/core"
	"verif/harness/pgen"
)

func init() {
	core.Register(&core.Prop{ID: "C04", Level: "exploration", Run: runC04,
		Rule:  "every feature file and generated file sets are formatted; the result is formatted again, and checked with format -l and -d; each file is laid out anew at random (between all tokens if it has no comment, indentation, blank lines and trailing blanks if it has) several times and must come out the same; repeated runs must agree. Non-trivial: the text changed; distinct by the source text.",
		Notes: []string{"a new layout is only a case if protoc accepts it with the same descriptors"}})
}

// settled formats rel in place and checks that the result is a fixed point.
func settled(cs *core.Case, rel, src string, to time.Duration) (string, bool) {
	o := core.Opt{Timeout: to}
	r := cs.Run(o, "format", "-w", rel)
	if r.Code != 0 || r.Hung {
		return "", false
	}
	out := cs.Read(rel)
	if l := cs.Run(o, "format", "-l", rel); l.Code != 0 || l.Out != "" {
		w := cs.Run(o, "format", rel)
		cs.Fatal("format -l complains about a formatted file: %s\n%s\n--- source\n%s\n--- formatted\n%s", l, firstDiff(out, w.Out+"\n"), src, out)
	}
	w := cs.Run(o, "format", rel)
	if w.Code != 0 || strings.TrimSuffix(w.Out, "\n") != strings.TrimSuffix(out, "\n") {
		cs.Fatal("formatting again gives something else: %s (exit %d)\n--- source\n%s", firstDiff(out, w.Out), w.Code, src)
	}
	return out, true
}

func runC04(c *core.Ctx) {
	var n []string
	for _, f := range features {
		n = append(n, f.name)
	}
	c.Named("feature", n, func(cs *core.Case) {
		f, p, ok := writeFeature(cs, "")
		if !ok {
			cs.C.Count("features_protoc_rejects", 1)
			return
		}
		out, ok := settled(cs, p, f.src, 8*time.Second)
		if !ok { // C24 looks at those
			cs.C.Count("features_not_formatted", 1)
			return
		}
		cs.C.Count("features", 1)
		cs.Sig(f.name)
		relayouts(cs, p, f.src, out, 4)
	})
	c.Each("set", c.N(220, 4000), func(cs *core.Case) {
		r := cs.R
		cfg := fmtCfg(cs)
		plain := chance(r, 50)
		if plain {
			cfg.Comments, cfg.Inline, cfg.HeadComment, cfg.CStyle = 0, 0, false, 0
		}
		s := pgen.Generate(r, cfg)
		writeSet(cs, s, "")
		cs.Write("prototool.yaml", "protoc:\n  allow_unused_imports: true\n")
		src := map[string]string{}
		for _, f := range s.Files {
			t := f.Render()
			if !plain {
				if chance(r, 60) {
					t = pgen.Sprinkle(r, t, 1+r.Intn(30))
				}
				t = pgen.Reindent(r, t)
			}
			src[f.Path] = t
			cs.Write(f.Path, t)
		}
		// twice from the same bytes, in one directory run
		if w := cs.P("format", "-w", "."); w.Code != 0 {
			cs.Fatal("format: %s", w)
		}
		out := map[string]string{}
		for _, f := range s.Files {
			out[f.Path] = cs.Read(f.Path)
			if out[f.Path] != src[f.Path] {
				cs.Sig(src[f.Path])
			}
		}
		if w := cs.P("format", "-l", "."); w.Code != 0 || w.Out != "" {
			cs.Fatal("format -l complains about formatted files: %s", w)
		}
		if w := cs.P("format", "-d", "."); w.Code != 0 || w.Out != "" {
			cs.Fatal("format -d shows a difference after format -w: %s", w)
		}
		for _, f := range s.Files {
			cs.Write(f.Path, src[f.Path])
		}
		cs.P("format", "-w", ".")
		for _, f := range s.Files {
			if got := cs.Read(f.Path); got != out[f.Path] {
				cs.Fatal("the same bytes are formatted in two ways: %s\n--- source\n%s", firstDiff(out[f.Path], got), src[f.Path])
			}
		}
		// new layouts of every file at once
		for k := 0; k < 3; k++ {
			lay := map[string]string{}
			for _, f := range s.Files {
				if plain {
					lay[f.Path] = pgen.Relayout(r, src[f.Path], false)
				} else {
					lay[f.Path] = pgen.Reindent(r, src[f.Path])
				}
				cs.Write(f.Path, lay[f.Path])
			}
			w := cs.P("format", "-w", ".")
			if w.Code != 0 {
				cs.Fatal("format fails on another layout: %s", w)
			}
			for _, f := range s.Files {
				got := cs.Read(f.Path)
				if !sameUpToCommentPlaces(got, out[f.Path], plain) {
					cs.Fatal("%s: another layout is formatted differently: %s\n--- source\n%s\n--- other layout\n%s", f.Path, firstDiff(out[f.Path], got), src[f.Path], lay[f.Path])
				}
				cs.C.Count("layouts_compared", 1)
			}
		}
	})
}

// sameUpToCommentPlaces compares two formatted texts; with comments, blank
// lines may differ.
func sameUpToCommentPlaces(a, b string, plain bool) bool {
	if plain {
		return a == b
	}
	sq := func(s string) string {
		var out []string
		for _, l := range strings.Split(s, "\n") {
			if strings.TrimSpace(l) != "" {
				out = append(out, l)
			}
		}
		return strings.Join(out, "\n")
	}
	return sq(a) == sq(b)
}

func relayouts(cs *core.Case, rel, src, out string, n int) {
	toks := pgen.Tokenize(src)
	plain := len(toks) == len(pgen.Code(toks))
	o := core.Opt{Timeout: 8 * time.Second}
	for k := 0; k < n; k++ {
		var lay string
		if plain {
			lay = pgen.Relayout(cs.R, src, false)
		} else {
			lay = pgen.Reindent(cs.R, src)
		}
		cs.Write(rel, lay)
		w := cs.Run(o, "format", "-w", rel)
		if w.Code != 0 || w.Hung {
			cs.Fatal("format fails on another layout: %s\n--- other layout\n%s", w, lay)
		}
		if got := cs.Read(rel); !sameUpToCommentPlaces(got, out, plain) {
			cs.Fatal("another layout is formatted differently: %s\n--- source\n%s\n--- other layout\n%s", firstDiff(out, got), src, lay)
		}
		cs.C.Count("layouts_compared", 1)
	}
}
