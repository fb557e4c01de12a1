package props

import (
	"strings"

	"verif/harness/core"
	"verif/harness/pgen"
)

// GEN is a development aid: it checks that generated sets compile.
func init() {
	core.Register(&core.Prop{ID: "GEN", Level: "other", Rule: "dev", Run: func(c *core.Ctx) {
		c.Each("gen", c.N(300, 3000), func(cs *core.Case) {
			s := pgen.Generate(cs.R, fullCfg(cs))
			writeSet(cs, s, "")
			for _, f := range s.Files {
				r := protocCheck(cs, "", f.Path)
				if r.Code != 0 || strings.TrimSpace(r.Err) != "" {
					cs.Fail("%s\n%s", r, f.Render())
					return
				}
			}
		})
	}})
}

func fullCfg(cs *core.Case) pgen.Cfg {
	return pgen.Cfg{Pkgs: 3, FilesPerPkg: 3, Defs: 5, Depth: 3, Proto2: 40, Comments: 25, Inline: 10, CStyle: 20, CustomOpts: cs.I%2 == 0, StdOpts: 30, FileOpts: 20, Services: true, WKT: true, Groups: true, Extends: true, Aliases: true, Beta: 20, Unversioned: 20, NoPkg: 20, HeadComment: true, ImportPct: 60}
}
