// Driver for the sample store: executes behaviours of Storage.tla, Select.tla
// and Iter.tla on promq/prom's rangeStorage.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/storage"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"sigs.k8s.io/instrumentation-tools/zzverif/hlib"
)

type matcher struct{ N, T, V string }

func (m matcher) real() *labels.Matcher {
	t := map[string]labels.MatchType{"=": labels.MatchEqual, "!=": labels.MatchNotEqual,
		"=~": labels.MatchRegexp, "!~": labels.MatchNotRegexp}[m.T]
	r, err := labels.NewMatcher(t, m.N, m.V)
	if err != nil {
		hlib.Fail("matcher", err)
	}
	return r
}

func reals(ms []matcher) []*labels.Matcher {
	var res []*labels.Matcher
	for _, m := range ms {
		res = append(res, m.real())
	}
	return res
}

// order-preserving interpretations of the specification's timestamp ranks
var timeTables = [][]int64{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9},
	{-3, -2, -1, 0, 1, 2, 3, 4, 5, 6},
	{1600000000000, 1600000000001, 1600000015000, 1600000030000, 1600000030001, 1600000045000, 1700000000000, 1700000000001, 1700000000002, 1800000000000},
	{math.MinInt64, math.MinInt64 + 1, -1 << 33, -1, 0, 1, 1 << 31, 1 << 32, 1 << 53, math.MaxInt64},
}

func timeRank(tt []int64, t int64) int {
	for i, v := range tt {
		if v == t {
			return i
		}
	}
	return -1
}

func value(id int) float64 { return float64(id) + 0.25 }

// special values; the last two are numbers that are none, one of which means
// that a series ended
var special = []float64{math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, math.MaxFloat64, 5e-324,
	math.Float64frombits(0x7ff8000000000001), math.Float64frombits(0x7ff0000000000002)}

// reading says which concrete samples a sample of the specification stands for.
type reading struct {
	tt     []int64
	values int // 0: each its own, 1: all the same, 2: special ones
	thick  int // so many samples each, at times of their own, unless 0
}

func (r reading) value(id int) float64 {
	switch r.values {
	case 1:
		return 7
	case 2:
		return special[id%len(special)]
	}
	return value(id)
}

func (r reading) code(v float64) interface{} {
	switch r.values {
	case 1:
		if v == 7 {
			return 0
		}
		return "not 7"
	case 2:
		for i, s := range special {
			if math.Float64bits(s) == math.Float64bits(v) {
				return i
			}
		}
		return fmt.Sprintf("%x", math.Float64bits(v))
	}
	return v - 0.25
}

func (r reading) time(rank, k int) int64 {
	if r.thick > 0 {
		return int64(rank-2)*1000000 + int64(k)*7
	}
	return r.tt[rank]
}

// samples are those that one sample stands for; late ones come first now and then.
func (r reading) samples(l labels.Labels, rank, id int) []prom.ParsedSeries {
	n := r.thick
	if n == 0 {
		n = 1
	}
	res := make([]prom.ParsedSeries, n)
	for k := range res {
		at := k
		switch id % 3 {
		case 1:
			at = n - 1 - k
		case 2:
			at = (k + n/2) % n
		}
		res[at] = prom.ParsedSeries{Labels: l.Copy(), Timestamp: r.time(rank, k), Value: r.value(id)}
	}
	return res
}

// back tells which samples of the specification these are.
func (r reading) back(times []int64, values []float64) ([][2]interface{}, string) {
	res := [][2]interface{}{}
	if r.thick == 0 {
		for i := range times {
			res = append(res, [2]interface{}{timeRank(r.tt, times[i]), r.code(values[i])})
		}
		return res, ""
	}
	for i := 0; i < len(times); {
		// all samples of one time come together, k by k
		rank := int((times[i] + 2000000) / 1000000)
		m := 0
		for i+m < len(times) && times[i+m] == r.time(rank, 0) {
			m++
		}
		if m == 0 || i+m*r.thick > len(times) {
			return nil, fmt.Sprintf("sample %d of %d at %d: %d at the same time", i, len(times), times[i], m)
		}
		for k := 0; k < r.thick; k++ {
			for j := 0; j < m; j++ {
				at := i + k*m + j
				if times[at] != r.time(rank, k) || math.Float64bits(values[at]) != math.Float64bits(values[i+j]) {
					return nil, fmt.Sprintf("sample %d of %d is %v at %d, not %v at %d", at, len(times), values[at], times[at], values[i+j], r.time(rank, k))
				}
			}
		}
		for j := 0; j < m; j++ {
			res = append(res, [2]interface{}{rank, r.code(values[i+j])})
		}
		i += m * r.thick
	}
	return res, ""
}

type meta struct {
	LS      []map[string]string
	Battery [][]matcher
	Names   []string
}

func loadMeta() meta {
	var m meta
	hlib.Must([]byte(os.Args[4]), &m)
	return m
}

type reader interface {
	Querier(ctx context.Context, mint, maxt int64) (storage.Querier, error)
}

func querier(s reader) storage.Querier {
	q, err := s.Querier(context.Background(), math.MinInt64, math.MaxInt64)
	if err != nil {
		hlib.Fail("querier", err)
	}
	return q
}

// sel returns the indices (1-based) of the selected label sets, sorted, with
// duplicates kept; 0 stands for a label set that was never loaded.
func sel(q storage.Querier, ms []*labels.Matcher, ls []labels.Labels) ([]int, string) {
	set := q.Select(false, nil, ms...)
	res := []int{}
	for set.Next() {
		res = append(res, idx(ls, set.At().Labels()))
		if len(res) > 10000000 {
			return res, "endless selection"
		}
	}
	if set.Err() != nil {
		return res, set.Err().Error()
	}
	sort.Ints(res)
	return res, ""
}

func idx(ls []labels.Labels, l labels.Labels) int {
	for i, v := range ls {
		if labels.Equal(v, l) {
			return i + 1
		}
	}
	return 0
}

type event struct {
	Op string
	B  [][2]int
	V  int
	C  int
	O  bool
}

// blockLabel tells the copies of the specification's series apart when every
// one of them stands for a block of concrete series.
const blockLabel = "zz_block"

// The label names and values of some blocks are long.
func blockName(k int) string {
	if k%7 == 3 {
		return blockLabel + strconv.Itoa(k) + strings.Repeat("_long", 60)
	}
	return blockLabel + strconv.Itoa(k)
}

func blockValue(k int) string {
	if k%5 == 3 {
		return strconv.Itoa(k) + strings.Repeat(" long", 300)
	}
	return strconv.Itoa(k)
}

func inBlock(l labels.Labels, k int) labels.Labels {
	return labels.NewBuilder(l).Set(blockLabel, blockValue(k)).Set(blockName(k), "x").Labels()
}

// observeBlocks observes some of the blocks, which all have to look alike, and
// counts the series of all of them.
func observeBlocks(s reader, m meta, plain []labels.Labels, r reading, blocks int) interface{} {
	var res hlib.J
	for i, k := range []int{0, blocks / 2, blocks - 1} {
		ls := make([]labels.Labels, len(plain))
		for j := range plain {
			ls[j] = inBlock(plain[j], k)
		}
		only, _ := labels.NewMatcher(labels.MatchEqual, blockLabel, blockValue(k))
		o := observe(s, m, ls, r, only).(hlib.J)
		names := []string{}
		for _, n := range o["names"].([]string) {
			if !strings.HasPrefix(n, blockLabel) {
				names = append(names, n)
			}
		}
		if added := len(o["names"].([]string)) - len(names); added != 0 && len(names) == 0 || added != 1+blocks && len(names) > 0 {
			o["odd"] = append([]string{fmt.Sprintf("%d labels of the blocks are listed", added)}, names...)
		}
		o["names"] = names
		if i == 0 {
			res = o
		} else if a, b := fmt.Sprint(res), fmt.Sprint(o); a != b {
			res["odd"] = []string{fmt.Sprintf("block %d looks different: %s", k, b)}
		}
	}
	q := querier(s)
	vals, _, err := q.LabelValues(blockLabel)
	if distinct := map[string]bool{}; err != nil || len(vals) != 0 && len(vals) != blocks || (len(vals) == 0) != (len(res["names"].([]string)) == 0) {
		res["odd"] = []string{fmt.Sprintf("%d values of the blocks' label: %v", len(vals), err)}
	} else {
		for _, v := range vals {
			distinct[v] = true
		}
		for k := 0; k < blocks && len(vals) > 0; k++ {
			if !distinct[blockValue(k)] {
				res["odd"] = []string{"no value of block " + strconv.Itoa(k)}
			}
		}
	}
	for i, ms := range m.Battery {
		set, n := q.Select(false, nil, reals(ms)...), 0
		for set.Next() {
			n++
		}
		if want := blocks * len(res["sel"].([][]int)[i]); n != want {
			res["odd"] = []string{fmt.Sprintf("%v selects %d series instead of %d", ms, n, want)}
		}
	}
	return res
}

func observe(s reader, m meta, ls []labels.Labels, rd reading, only ...*labels.Matcher) interface{} {
	q := querier(s)
	data := make([][][2]interface{}, len(ls))
	for i := range data {
		data[i] = [][2]interface{}{}
	}
	var odd []string
	// every series: a label set without any label cannot be stored
	all, _ := labels.NewMatcher(labels.MatchNotEqual, "no_such_label", "value")
	set := q.Select(false, nil, append([]*labels.Matcher{all}, only...)...)
	seen := map[int]bool{}
	for set.Next() {
		srs := set.At()
		i := idx(ls, srs.Labels())
		if i == 0 || seen[i] {
			odd = append(odd, "unexpected or repeated series "+srs.Labels().String())
			continue
		}
		seen[i] = true
		it := srs.Iterator()
		var times []int64
		var values []float64
		for n := 0; it.Next(); n++ {
			t, v := it.At()
			times, values = append(times, t), append(values, v)
			if n > 3000000 {
				odd = append(odd, "endless series")
				break
			}
		}
		smp, wrong := rd.back(times, values)
		if wrong != "" {
			odd = append(odd, wrong)
		}
		data[i-1] = smp
		if it.Err() != nil {
			odd = append(odd, it.Err().Error())
		}
		if len(data[i-1]) == 0 && wrong == "" {
			odd = append(odd, "series without samples selected: "+srs.Labels().String())
		}
	}
	if set.Err() != nil {
		odd = append(odd, set.Err().Error())
	}
	sels := [][]int{}
	for _, ms := range m.Battery {
		r, e := sel(q, append(reals(ms), only...), ls)
		if e != "" {
			odd = append(odd, e)
		}
		sels = append(sels, r)
	}
	names, _, err := q.LabelNames()
	if err != nil {
		odd = append(odd, err.Error())
	}
	sort.Strings(names)
	if names == nil {
		names = []string{}
	}
	values := map[string][]string{}
	for _, n := range m.Names {
		vs, _, err := q.LabelValues(n)
		if err != nil {
			odd = append(odd, err.Error())
		}
		sort.Strings(vs)
		if vs == nil {
			vs = []string{}
		}
		values[n] = vs
	}
	other, _, _ := q.LabelValues("no_such_label")
	if len(other) != 0 {
		odd = append(odd, "values of an unknown label")
	}
	if err := q.Close(); err != nil {
		odd = append(odd, err.Error())
	}
	o := hlib.J{"data": data, "sel": sels, "names": names, "values": values}
	if odd != nil {
		o["odd"] = odd
	}
	return o
}

func history(raw json.RawMessage) interface{} {
	var t struct {
		H      []event
		TT     int
		Blocks int // 0: one series per series of the specification
		Thick  int
		Values int
	}
	hlib.Must(raw, &t)
	m := loadMeta()
	var ls []labels.Labels
	for _, l := range m.LS {
		ls = append(ls, labels.FromMap(l))
	}
	rd := reading{tt: timeTables[t.TT%len(timeTables)], values: t.Values, thick: t.Thick}
	s := prom.NewRangeStorage()
	var obs []interface{}
	for _, e := range t.H {
		switch e.Op {
		case "load":
			var batch []prom.ParsedSeries
			for b := 0; b < t.Blocks; b++ {
				for k, p := range e.B {
					batch = append(batch, rd.samples(inBlock(ls[p[0]-1], b), p[1], e.V+k)...)
				}
			}
			for k, p := range e.B {
				if t.Blocks == 0 {
					batch = append(batch, rd.samples(ls[p[0]-1], p[1], e.V+k)...)
				}
			}
			if err := s.LoadData(batch); err != nil {
				return hlib.J{"error": err.Error()}
			}
			// the caller may reuse its batch afterwards
			for k := range batch {
				batch[k] = prom.ParsedSeries{Timestamp: -12345, Value: -1}
			}
		case "clean":
			s.Clean(rd.time(e.C, 0))
		default:
			hlib.Fail("op", e.Op)
		}
		if e.O {
			if t.Blocks > 0 {
				obs = append(obs, observeBlocks(s, m, ls, rd, t.Blocks))
				continue
			}
			obs = append(obs, observe(s, m, ls, rd))
		}
	}
	return obs
}

// selectAll: for every given matcher combination, the selected subset of each
// of the given stores
func selectAll(raw json.RawMessage) interface{} {
	var t struct {
		Stores [][]int // label sets to load, in order
		Gone   [][]int // label sets loaded and cleaned first
		Ms     []matcher
		Acc    []int
	}
	hlib.Must(raw, &t)
	m := loadMeta()
	acc := map[int]bool{}
	for _, a := range t.Acc {
		acc[a] = true
	}
	bad := []interface{}{}
	for k := range t.Stores {
		s, ls := storeFor(m, t.Stores[k], t.Gone[k])
		want := []int{}
		for _, i := range t.Stores[k] {
			if acc[i] {
				want = append(want, i)
			}
		}
		sort.Ints(want)
		got, e := sel(querier(s), reals(t.Ms), ls)
		same := e == "" && len(got) == len(want)
		for i := 0; same && i < len(got); i++ {
			same = got[i] == want[i]
		}
		if !same {
			bad = append(bad, hlib.J{"store": t.Stores[k], "gone": t.Gone[k], "got": got, "want": want, "err": e})
		}
	}
	return bad
}

var (
	storeCache = map[string]reader{}
	lsCache    []labels.Labels
)

func storeFor(m meta, set, gone []int) (reader, []labels.Labels) {
	if lsCache == nil {
		for _, l := range m.LS {
			lsCache = append(lsCache, labels.FromMap(l))
		}
	}
	key, _ := json.Marshal([2][]int{set, gone})
	if s, ok := storeCache[string(key)]; ok {
		return s, lsCache
	}
	s := prom.NewRangeStorage()
	load := func(i int, ts int64) {
		if err := s.LoadData([]prom.ParsedSeries{{Labels: labels.FromMap(m.LS[i-1]), Timestamp: ts, Value: 1}}); err != nil {
			hlib.Fail(err)
		}
	}
	// interleave the series that are going to be expired with those that stay
	for k, i := range set {
		if k < len(gone) {
			load(gone[k], 1)
		}
		load(i, 5)
	}
	for k := len(set); k < len(gone); k++ {
		load(gone[k], 1)
	}
	if len(gone) > 0 {
		s.Clean(3)
	}
	storeCache[string(key)] = s
	return s, lsCache
}

func iterate(raw json.RawMessage) interface{} {
	var t struct {
		Times []int
		H     []struct {
			Op string
			T  int
		}
		TT int
	}
	hlib.Must(raw, &t)
	tt := timeTables[t.TT%len(timeTables)]
	s := prom.NewRangeStorage()
	l := labels.FromStrings("__name__", "m")
	for i, tm := range t.Times {
		if err := s.LoadData([]prom.ParsedSeries{{Labels: l, Timestamp: tt[tm], Value: value(i + 1)}}); err != nil {
			return hlib.J{"error": err.Error()}
		}
	}
	set := querier(s).Select(false, nil, matcher{"__name__", "=", "m"}.real())
	if !set.Next() {
		return "series not found"
	}
	it := set.At().Iterator()
	res := []interface{}{}
	for _, e := range t.H {
		ok := false
		if e.Op == "next" {
			ok = it.Next()
		} else {
			ok = it.Seek(tt[e.T])
		}
		if !ok {
			res = append(res, []interface{}{})
			continue
		}
		tm, v := it.At()
		res = append(res, []interface{}{v - 0.25, timeRank(tt, tm)})
	}
	return res
}

func main() {
	if len(os.Args) > 4 && os.Args[1] == "history" {
		m := loadMeta()
		if len(m.LS) > 3 && labels.FromMap(m.LS[2]).Hash() != labels.FromMap(m.LS[3]).Hash() {
			hlib.Fail("label sets 3 and 4 no longer hash alike")
		}
	}
	hlib.Mode("history", history)
	hlib.Mode("select", selectAll)
	hlib.Mode("iterate", iterate)
	hlib.Main()
}
