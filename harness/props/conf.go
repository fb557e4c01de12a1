package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// M and L are generic configuration values.
type M = map[string]interface{}
type L = []interface{}

func strsL(s []string) L {
	var l L
	for _, x := range s {
		l = append(l, x)
	}
	return l
}

// toYAML prints a value in block style.
func toYAML(v interface{}, ind int) string {
	pad := strings.Repeat("  ", ind)
	switch x := v.(type) {
	case M:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		for _, k := range ks {
			switch y := x[k].(type) {
			case M:
				if len(y) == 0 {
					fmt.Fprintf(&b, "%s%s: {}\n", pad, k)
				} else {
					fmt.Fprintf(&b, "%s%s:\n%s", pad, k, toYAML(y, ind+1))
				}
			case L:
				if len(y) == 0 {
					fmt.Fprintf(&b, "%s%s: []\n", pad, k)
				} else {
					fmt.Fprintf(&b, "%s%s:\n%s", pad, k, toYAML(y, ind+1))
				}
			default:
				fmt.Fprintf(&b, "%s%s: %s\n", pad, k, scalarYAML(y))
			}
		}
		return b.String()
	case L:
		var b strings.Builder
		for _, e := range x {
			switch y := e.(type) {
			case M:
				s := toYAML(y, ind+1)
				// put the dash before the first key
				s = pad + "- " + strings.TrimPrefix(s, strings.Repeat("  ", ind+1))
				b.WriteString(s)
			default:
				fmt.Fprintf(&b, "%s- %s\n", pad, scalarYAML(y))
			}
		}
		return b.String()
	}
	return scalarYAML(v)
}

func scalarYAML(v interface{}) string {
	switch x := v.(type) {
	case string:
		b, _ := json.Marshal(x)
		return string(b)
	default:
		return fmt.Sprint(x)
	}
}

func toJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}
