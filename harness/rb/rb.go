// Package rb reads rendered query results back.
package rb

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"gopkg.in/yaml.v2"
)

// Series is a series read back: its labels and points (ms, value).
type Series struct {
	Labels map[string]string
	T      []int64
	V      []float64
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// Read parses a rendering.
func Read(text, format string, colored bool) ([]Series, error) {
	switch format {
	case "json":
		if colored {
			text = ansi.ReplaceAllString(text, "")
		}
		return readJSON(text)
	case "yaml":
		return readYAML(text)
	case "prometheus":
		return readProm(text)
	}
	return nil, fmt.Errorf("format %q", format)
}

func jsonPoint(v interface{}) (int64, float64, error) {
	l, ok := v.([]interface{})
	if !ok || len(l) != 2 {
		return 0, 0, fmt.Errorf("not a point: %v", v)
	}
	t, ok := l[0].(float64)
	s, ok2 := l[1].(string)
	if !ok || !ok2 {
		return 0, 0, fmt.Errorf("not a point: %v", v)
	}
	f, err := strconv.ParseFloat(s, 64)
	return int64(math.Round(t * 1000)), f, err
}

func readJSON(text string) ([]Series, error) {
	var top []interface{}
	if err := json.Unmarshal([]byte(text), &top); err != nil {
		return nil, err
	}
	if len(top) == 2 {
		if _, ok := top[0].(float64); ok {
			t, v, err := jsonPoint([]interface{}(top))
			return []Series{{nil, []int64{t}, []float64{v}}}, err
		}
	}
	res := []Series{}
	for _, e := range top {
		m, ok := e.(map[string]interface{})
		if !ok {
			return nil, fmt.Errorf("not a series: %v", e)
		}
		s := Series{Labels: map[string]string{}}
		lm, ok := m["metric"].(map[string]interface{})
		if !ok {
			return nil, fmt.Errorf("no metric: %v", e)
		}
		for k, v := range lm {
			str, ok := v.(string)
			if !ok {
				return nil, fmt.Errorf("label value %v", v)
			}
			s.Labels[k] = str
		}
		var pts []interface{}
		if v, ok := m["value"]; ok {
			pts = []interface{}{v}
		} else if v, ok := m["values"].([]interface{}); ok {
			pts = v
		} else {
			return nil, fmt.Errorf("no values: %v", e)
		}
		for _, p := range pts {
			t, v, err := jsonPoint(p)
			if err != nil {
				return nil, err
			}
			s.T, s.V = append(s.T, t), append(s.V, v)
		}
		res = append(res, s)
	}
	return res, nil
}

func num(v interface{}) (float64, error) {
	switch x := v.(type) {
	case int:
		return float64(x), nil
	case int64:
		return float64(x), nil
	case uint64:
		return float64(x), nil
	case float64:
		return x, nil
	}
	return 0, fmt.Errorf("not a number: %v (%T)", v, v)
}

func yamlPoint(v interface{}) (int64, float64, error) {
	m, ok := v.(map[interface{}]interface{})
	if !ok {
		return 0, 0, fmt.Errorf("not a point: %v", v)
	}
	var t int64
	switch x := m["t"].(type) {
	case int:
		t = int64(x)
	case int64:
		t = x
	default:
		return 0, 0, fmt.Errorf("not a timestamp: %v", m["t"])
	}
	f, err := num(m["v"])
	return t, f, err
}

func readYAML(text string) ([]Series, error) {
	var top interface{}
	if err := yaml.Unmarshal([]byte(text), &top); err != nil {
		return nil, err
	}
	if _, ok := top.(map[interface{}]interface{}); ok {
		t, v, err := yamlPoint(top)
		return []Series{{nil, []int64{t}, []float64{v}}}, err
	}
	l, ok := top.([]interface{})
	if !ok {
		return nil, fmt.Errorf("not a list: %T", top)
	}
	res := []Series{}
	for _, e := range l {
		m, ok := e.(map[interface{}]interface{})
		if !ok {
			return nil, fmt.Errorf("not a series: %v", e)
		}
		s := Series{Labels: map[string]string{}}
		lm, ok := m["metric"].(map[interface{}]interface{})
		if !ok {
			return nil, fmt.Errorf("no metric: %v", e)
		}
		for k, v := range lm {
			ks, ok := k.(string)
			vs, ok2 := v.(string)
			if !ok || !ok2 {
				return nil, fmt.Errorf("label %v: %v", k, v)
			}
			s.Labels[ks] = vs
		}
		var pts []interface{}
		if v, ok := m["point"]; ok {
			pts = []interface{}{v}
		} else if v, ok := m["points"].([]interface{}); ok {
			pts = v
		} else {
			return nil, fmt.Errorf("no points: %v", e)
		}
		for _, p := range pts {
			t, v, err := yamlPoint(p)
			if err != nil {
				return nil, err
			}
			s.T, s.V = append(s.T, t), append(s.V, v)
		}
		res = append(res, s)
	}
	return res, nil
}

var (
	pointRe  = regexp.MustCompile(`^(\S+) @\[(-?\d+)\]$`)
	scalarRe = regexp.MustCompile(`^scalar: (.*)$`)
)

func promPoint(s string) (int64, float64, error) {
	m := pointRe.FindStringSubmatch(s)
	if m == nil {
		return 0, 0, fmt.Errorf("not a point: %q", s)
	}
	v, err := strconv.ParseFloat(m[1], 64)
	if err != nil {
		return 0, 0, err
	}
	t, err := strconv.ParseInt(m[2], 10, 64)
	return t, v, err
}

func readProm(text string) ([]Series, error) {
	res := []Series{}
	if strings.TrimRight(text, "\n") == "" {
		return res, nil
	}
	if m := scalarRe.FindStringSubmatch(text); m != nil {
		t, v, err := promPoint(m[1])
		return []Series{{nil, []int64{t}, []float64{v}}}, err
	}
	for _, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if line == "" && len(res) > 0 && len(res[len(res)-1].T) == 0 {
			continue // a series without points
		}
		if pointRe.MatchString(line) && len(res) > 0 {
			t, v, err := promPoint(line)
			if err != nil {
				return nil, err
			}
			s := &res[len(res)-1]
			s.T, s.V = append(s.T, t), append(s.V, v)
			continue
		}
		s := Series{Labels: map[string]string{}}
		rest := line
		k := strings.IndexByte(rest, '{')
		if k < 0 {
			return nil, fmt.Errorf("not a sample: %q", line)
		}
		if k > 0 {
			s.Labels["__name__"] = rest[:k]
		}
		rest = rest[k+1:]
		for {
			rest = strings.TrimPrefix(rest, ", ")
			if strings.HasPrefix(rest, "}") {
				rest = rest[1:]
				break
			}
			k := strings.Index(rest, `="`)
			if k < 0 {
				return nil, fmt.Errorf("bad labels: %q", line)
			}
			name := rest[:k]
			rest = rest[k+1:]
			end := -1
			for i := 1; i < len(rest); i++ {
				if rest[i] == '\\' {
					i++
				} else if rest[i] == '"' {
					end = i
					break
				}
			}
			if end < 0 {
				return nil, fmt.Errorf("bad labels: %q", line)
			}
			v, err := strconv.Unquote(rest[:end+1])
			if err != nil {
				return nil, err
			}
			if _, dup := s.Labels[name]; dup {
				return nil, fmt.Errorf("label twice: %q", line)
			}
			s.Labels[name] = v
			rest = rest[end+1:]
		}
		if !strings.HasPrefix(rest, " =>") {
			return nil, fmt.Errorf("no arrow: %q", line)
		}
		rest = strings.TrimPrefix(rest, " =>")
		if rest != "" {
			t, v, err := promPoint(strings.TrimPrefix(rest, " "))
			if err != nil {
				return nil, err
			}
			s.T, s.V = append(s.T, t), append(s.V, v)
		}
		res = append(res, s)
	}
	return res, nil
}
