//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/vh/lib"
)

// canon is a canonical rendering of a set of metadata.
func canon(md map[string]string) string {
	var o []string
	for k, v := range md {
		o = append(o, strconv.Quote(k)+":"+strconv.Quote(v))
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}

// parse reads the text form back.
func parse(text, name string) (map[string]string, error) {
	md := map[string]string{}
	if text == name {
		return md, nil
	}
	if !strings.HasPrefix(text, name+"[") || !strings.HasSuffix(text, "]") {
		return nil, fmt.Errorf("not of the form %s[...]", name)
	}
	s := text[len(name)+1 : len(text)-1]
	for s != "" {
		i := strings.IndexAny(s, "= ")
		key := s
		rest := ""
		if i >= 0 {
			key, rest = s[:i], s[i:]
		}
		if key == "" {
			return nil, fmt.Errorf("empty key at %q", s)
		}
		val := ""
		if strings.HasPrefix(rest, "=") {
			rest = rest[1:]
			if strings.HasPrefix(rest, `"`) {
				q := rest[:1]
				j := 1
				for ; j < len(rest); j++ {
					q += rest[j : j+1]
					if rest[j] == '\\' {
						j++
						if j < len(rest) {
							q += rest[j : j+1]
						}
						continue
					}
					if rest[j] == '"' {
						break
					}
				}
				v, err := strconv.Unquote(q)
				if err != nil {
					return nil, fmt.Errorf("bad quoted value %q", q)
				}
				val, rest = v, rest[len(q):]
			} else {
				j := strings.IndexByte(rest, ' ')
				if j < 0 {
					j = len(rest)
				}
				val, rest = rest[:j], rest[j:]
			}
			if val == "" {
				return nil, fmt.Errorf("empty value for %q", key)
			}
		} else {
			if !strings.HasPrefix(key, "@") {
				return nil, fmt.Errorf("%q is neither a pair nor an annotation", key)
			}
			key = key[1:]
		}
		if _, dup := md[key]; dup {
			return nil, fmt.Errorf("%q occurs twice", key)
		}
		md[key] = val
		if rest != "" {
			if rest[0] != ' ' || len(rest) == 1 {
				return nil, fmt.Errorf("unexpected %q", rest)
			}
			rest = rest[1:]
		}
		s = rest
	}
	return md, nil
}

func clone(md map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range md {
		o[k] = v
	}
	return o
}

func checkText(n metric.Name, name string, md map[string]string, what string) string {
	s := n.String()
	got, err := parse(s, name)
	if err != nil {
		mc.Fail("text", "%s: %s of {%s} cannot be parsed: %v", what, s, canon(md), err)
	}
	if canon(got) != canon(md) {
		mc.Fail("text", "%s: %s parses to {%s}, want {%s}", what, s, canon(got), canon(md))
	}
	return s
}

var keys = []string{"a", "b", "aa", "host"}
var vals = []string{"", "x", "x y", `q"q`, "null", "=", "x]", "@y", "é", "t\tn\n", `b\s`, "[z"}

// build makes the same name in different ways.
func build(style int, name string, order []string, md map[string]string) metric.Name {
	switch style {
	case 0:
		return metric.NewName(name, clone(md))
	case 1, 2: // one by one
		n := metric.NewName(name, nil)
		if style == 2 {
			n = metric.NewName(name, map[string]string{})
		}
		for _, k := range order {
			if md[k] == "" {
				n.AddAnnotation(k)
			} else {
				n.AddMetadata(map[string]string{k: md[k]})
			}
		}
		return n
	case 3, 4: // with replacement, backwards
		n := metric.NewName(name, map[string]string{})
		for i := len(order) - 1; i >= 0; i-- {
			n.AddMetadata(map[string]string{order[i]: "old"})
		}
		if style == 4 {
			n.AddMetadata(md)
			return n
		}
		var ann []string
		for i := len(order) - 1; i >= 0; i-- {
			if md[order[i]] == "" {
				ann = append(ann, order[i])
			}
		}
		n.AddAnnotation(ann...)
		rest := map[string]string{}
		for k, v := range md {
			if v != "" {
				rest[k] = v
			}
		}
		n.AddMetadata(rest)
		return n
	default:
		return metric.NewNameFrom(metric.NewNameFrom(metric.NewName(name, clone(md))))
	}
}

const styles = 6

func main() {
	lib.Main("C25", []lib.Scenario{
		{Name: "text", Weight: 2, What: "all metadata over 4 keys and 12 values (spaces, quotes, brackets, null, unicode, control characters, annotations): 6 ways of building the name give the same text, it parses back, and no two sets give the same text",
			Seq: func(c *lib.Cases) {
				n := len(vals) + 1
				nk := 3
				if !c.Quick {
					nk = 4
				}
				total := 1
				for i := 0; i < nk; i++ {
					total *= n
				}
				for x := 0; x < total; x++ {
					x := x
					c.Step(styles)
					c.Add(fmt.Sprint(x), func() {
						md := map[string]string{}
						var order []string
						for i, y := 0, x; i < nk; i, y = i+1, y/n {
							if y%n > 0 {
								md[keys[i]] = vals[y%n-1]
								order = append(order, keys[i])
							}
						}
						for _, name := range []string{"m", "requests_count"} {
							first := ""
							for st := 0; st < styles; st++ {
								s := checkText(build(st, name, order, md), name, md, fmt.Sprint("way ", st))
								if st == 0 {
									first = s
								} else if s != first {
									mc.Fail("text", "{%s}: built in way %d it is %s, otherwise %s", canon(md), st, s, first)
								}
							}
						}
						c.StateID(uint64(x))
					})
				}
			}},
		{Name: "orders", What: "names with up to 4 entries, every map iteration order at every iteration", Cfg: mc.Config{MapOrders: 0},
			Body: func() {
				sets := []map[string]string{
					{"a": "1", "b": "2", "c": "3"}, {"a": "", "b": "", "c": ""}, {"a": "1", "b": "", "aa": "2", "c": ""}, {"z": "1", "a": ""},
				}
				md := sets[mc.Choose(len(sets), "set")]
				n := metric.NewName("m", clone(md))
				s := checkText(n, "m", md, "name")
				if mc.Choose(2, "what") == 0 {
					if len(md) < 4 {
						if s2 := n.String(); s2 != s {
							mc.Fail("text", "text depends on iteration order: %s, %s", s, s2)
						}
					}
				} else {
					n2 := metric.NewNameFrom(n)
					n2.AddAnnotation("q")
					if len(md) < 3 {
						w := clone(md)
						w["q"] = ""
						checkText(n2, "m", w, "copy")
					}
					n3 := metric.NewName("m", nil)
					n3.AddMetadata(md)
				}
				mc.Outcome(s)
			}},
		{Name: "canonical", What: "for 8 sets, the texts with any two iteration orders are equal", Cfg: mc.Config{MapOrders: 0},
			Body: canonical},
		{Name: "copies", Weight: 2, What: "all sequences of 5 (thorough: 6) operations on up to 4 names: copy, add pair, replace pair, replace pairs by empty values, add one or two annotations to the oldest or newest name; created without, with empty and with metadata",
			Seq: func(c *lib.Cases) {
				d := 5 + lib.Bit(!c.Quick)
				for init := 0; init < 3; init++ {
					init := init
					c.Seqs(fmt.Sprintf("i%d:", init), 9, d, func(q []int) func() { return func() { copies(c, init, q) } })
				}
			}},
	})
}

func canonical() {
	sets := []map[string]string{
		{"a": "1", "b": "2", "c": "3", "d": "4"}, {"a": "", "b": "", "c": "", "d": ""}, {"a": "1", "b": "", "aa": "2", "c": ""}, {"z": "1", "a": ""},
		{"b": "1", "a": "1"}, {"B": "1", "a": "1", "_": ""}, {"a": "1", "ab": "2", "abc": ""}, {"1": "1", "10": "1", "2": "1"},
	}
	i := mc.Choose(len(sets), "set")
	n := metric.NewName("m", clone(sets[i]))
	a := n.String()
	if b := n.String(); a != b {
		mc.Fail("text", "the text of {%s} depends on iteration order: %s and %s", canon(sets[i]), a, b)
	}
	mc.Outcome(a)
}

type entry struct {
	n  metric.Name
	md map[string]string
}

func copies(c *lib.Cases, init int, q []int) {
	md := map[string]string{}
	var n metric.Name
	switch init {
	case 0:
		n = metric.NewName("m", nil)
	case 1:
		n = metric.NewName("m", map[string]string{})
	case 2:
		n = metric.NewName("m", map[string]string{"k": "v"})
		md["k"] = "v"
	}
	es := []*entry{{n, md}}
	for i, op := range q {
		old, last := es[0], es[len(es)-1]
		val := fmt.Sprint("v", i)
		switch op {
		case 0:
			es = append(es, &entry{metric.NewNameFrom(last.n), clone(last.md)})
		case 1:
			es = append(es, &entry{metric.NewNameFrom(old.n), clone(old.md)})
		case 2, 3:
			e := []*entry{old, last}[op-2]
			in := map[string]string{"k": val}
			e.n.AddMetadata(in)
			in["k"] = "changed by the caller"
			e.md["k"] = val
		case 4:
			last.n.AddMetadata(map[string]string{"x": val, "y": "z"})
			last.md["x"], last.md["y"] = val, "z"
		case 5, 6:
			e := []*entry{old, last}[op-5]
			a := fmt.Sprint("a", i%2)
			e.n.AddAnnotation(a)
			e.md[a] = ""
		case 7:
			last.n.AddAnnotation("p", "x")
			last.md["p"], last.md["x"] = "", ""
		case 8:
			last.n.AddMetadata(map[string]string{"k": "", "q": ""})
			last.md["k"], last.md["q"] = "", ""
		}
		for j, e := range es {
			checkText(e.n, "m", e.md, fmt.Sprintf("init %d, operation %d of %v, name %d of %d", init, i, q, j, len(es)))
		}
		c.State("%s|%d", canon(last.md), len(es))
	}
}
