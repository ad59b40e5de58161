package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Series is one sample of the published metrics.
type Series struct {
	Name   string
	Labels map[string]string
	Val    float64
}

// Metrics reads the server's /metrics page.
func (c *Core) Metrics() ([]Series, error) {
	b, err := c.httpGet("http://127.0.0.1:2223/metrics")
	if err != nil {
		return nil, err
	}
	var out []Series
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" || l[0] == '#' || !strings.HasPrefix(l, "om_core_") {
			continue
		}
		s := Series{Labels: map[string]string{}}
		i := strings.IndexAny(l, "{ ")
		if i < 0 {
			continue
		}
		s.Name = l[:i]
		rest := l[i:]
		if rest[0] == '{' {
			rest = rest[1:]
			for rest != "" && rest[0] != '}' {
				rest = strings.TrimPrefix(rest, ",")
				eq := strings.Index(rest, "=\"")
				if eq < 0 {
					return nil, fmt.Errorf("bad metrics line %q", l)
				}
				k := rest[:eq]
				rest = rest[eq+2:]
				var sb strings.Builder
				j := 0
				for j < len(rest) && rest[j] != '"' {
					if rest[j] == '\\' && j+1 < len(rest) {
						j++
						if rest[j] == 'n' {
							sb.WriteByte('\n')
						} else {
							sb.WriteByte(rest[j])
						}
					} else {
						sb.WriteByte(rest[j])
					}
					j++
				}
				s.Labels[k] = sb.String()
				rest = rest[j+1:]
			}
			rest = strings.TrimPrefix(rest, "}")
		}
		v, err := strconv.ParseFloat(strings.Fields(rest)[0], 64)
		if err != nil {
			return nil, fmt.Errorf("bad metrics line %q", l)
		}
		s.Val = v
		out = append(out, s)
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("no om_core metrics published: %s", head(string(b), 200))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out, nil
}

// sum adds up the samples of a metric whose label (if not "") has the value.
func sumSeries(ss []Series, name, label, val string) (v float64, found bool) {
	for _, s := range ss {
		if s.Name == name && (label == "" || s.Labels[label] == val) {
			v += s.Val
			found = true
		}
	}
	return
}
