// Driver for the input line (C18) and filtering (C19).
package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/c-bata/go-prompt"

	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

type scripted struct {
	autocomplete.PromQLCompleter
	offers []autocomplete.Match
	asked  []string
}

func (s *scripted) GenerateSuggestions(q string, pos int) []autocomplete.Match {
	if pos < 0 || pos > len(q) {
		s.asked = append(s.asked, fmt.Sprintf("position %d of %q", pos, q))
		return nil
	}
	s.asked = append(s.asked, q[:pos])
	return s.offers
}

// accept does what the prompt does when an offer is chosen.
func accept(b *prompt.Buffer, text string) {
	if w := b.Document().GetWordBeforeCursorUntilSeparator(metrics.PromQLTokenSeparators); w != "" {
		b.DeleteBeforeCursor(len([]rune(w)))
	}
	b.InsertText(text, false, true)
}

func set(s []string) sets.String { return sets.NewString(s...) }

type op struct {
	Op     string `json:"op"`
	Text   string `json:"text"` // inserted
	Offers []struct {
		Unit   bool   `json:"unit"`
		Value  string `json:"value"`
		Detail string `json:"detail"`
	} `json:"offers"`
	Accept int `json:"accept"`
	// that many more offers, the first so many of them before the others
	Many int    `json:"many"`
	Lead int    `json:"lead"`
	Word string `json:"word"`
}

type realIndex map[string]map[string][]string

func (ix realIndex) GetMetricNames() sets.String {
	s := sets.NewString()
	for m := range ix {
		s.Insert(m)
	}
	return s
}
func (ix realIndex) GetStoredDimensionsForMetric(m string) sets.String {
	s := sets.NewString()
	for l := range ix[m] {
		s.Insert(l)
	}
	return s
}
func (ix realIndex) GetStoredValuesForMetricAndDimension(m, l string) sets.String {
	return sets.NewString(ix[m][l]...)
}

func main() {
	hlib.Mode("line", func(raw json.RawMessage) interface{} {
		var t struct {
			Ops []op `json:"ops"`
		}
		hlib.Must(raw, &t)
		b := prompt.NewBuffer()
		s := &scripted{}
		c := metrics.NewCompleter(s)
		res := []interface{}{}
		for _, o := range t.Ops {
			r := hlib.J{}
			switch o.Op {
			case "insert":
				b.InsertText(o.Text, false, true)
			case "left":
				b.CursorLeft(1)
			case "right":
				b.CursorRight(1)
			case "backspace":
				b.DeleteBeforeCursor(1)
			case "complete":
				s.offers, s.asked = nil, []string{}
				more := func(i int) {
					s.offers = append(s.offers, earley.NewPartialMatch(fmt.Sprintf("%smore%d", o.Word, i), "metric-id", "more"))
				}
				for i := 0; i < o.Lead; i++ {
					more(i)
				}
				for _, x := range o.Offers {
					kind := "metric-id"
					if x.Unit {
						kind = "time-unit"
					}
					s.offers = append(s.offers, earley.NewPartialMatch(x.Value, kind, x.Detail))
				}
				for i := o.Lead; i < o.Many; i++ {
					more(i)
				}
				shown := [][]string{}
				var texts []string
				n, found := [2]int{}, 0
				for _, sg := range c.Complete(*b.Document()) {
					if sg.Description == "more" {
						after := 0
						if found > 0 || n[0] == o.Lead {
							after = 1
						}
						if sg.Text != fmt.Sprintf("%smore%d", o.Word, n[0]+n[1]) {
							return hlib.J{"offer": sg.Text, "number": n[0] + n[1]}
						}
						n[after]++
						continue
					}
					found++
					shown = append(shown, []string{sg.Text, sg.Description})
					texts = append(texts, sg.Text)
				}
				r["more"] = n
				r["asked"], r["shown"] = s.asked, shown
				if o.Accept > 0 && o.Accept <= len(texts) {
					accept(b, texts[o.Accept-1])
				}
			}
			d := b.Document()
			r["text"], r["before"] = d.Text, d.TextBeforeCursor()
			res = append(res, r)
		}
		return res
	})
	// the whole chain: real completer, every offer accepted in turn
	hlib.Mode("chain", func(raw json.RawMessage) interface{} {
		var t struct {
			Ix    realIndex `json:"ix"`
			Text  string    `json:"text"`
			After string    `json:"after"`
			Unit  string    `json:"unit"` // text any time unit extends
		}
		hlib.Must(raw, &t)
		c := metrics.NewCompleter(earley.NewPromQLCompleter(t.Ix))
		ext := []string{}
		mk := func() *prompt.Buffer {
			b := prompt.NewBuffer()
			b.InsertText(t.Text+t.After, false, true)
			b.CursorLeft(len([]rune(t.After)))
			return b
		}
		for _, sg := range c.Complete(*mk().Document()) {
			b := mk()
			accept(b, sg.Text)
			d := b.Document()
			if !strings.HasPrefix(d.TextBeforeCursor(), t.Text) || d.TextAfterCursor() != t.After {
				return hlib.J{"offer": sg.Text, "before": d.TextBeforeCursor(), "after": d.TextAfterCursor()}
			}
			ext = append(ext, d.TextBeforeCursor()[len(t.Text):])
		}
		return hlib.J{"ext": len(ext)}
	})
	hlib.Mode("filter", func(raw json.RawMessage) interface{} {
		var t struct {
			Fn    string   `json:"fn"`
			Items []string `json:"items"`
			P     string   `json:"p"`
			IC    bool     `json:"ic"`
		}
		hlib.Must(raw, &t)
		in := set(t.Items)
		var out sets.String
		if t.Fn == "prefix" {
			out = autocomplete.FilterPrefix(in, t.P, t.IC)
		} else {
			out = autocomplete.FilterFuzzy(in, t.P, t.IC)
		}
		res := hlib.J{"exp": out.List(), "kept": in.Equal(set(t.Items))}
		q := autocomplete.Enquote(in)
		res["quoted"] = q.List()
		res["kept2"] = in.Equal(set(t.Items))
		return res
	})
	hlib.Main()
}
