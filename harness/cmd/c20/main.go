// C20: release metadata files survive a write/read round trip.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/format"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mmcloughlin/addchain/internal/metavars"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/cli"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
)

// qstr is a byte string that survives JSON.
type qstr string

func (q qstr) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(q))) }

func (q *qstr) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	*q = qstr(u)
	return err
}

type prop struct {
	Name  string `json:"name"`
	Doc   string `json:"doc,omitempty"`
	Value qstr   `json:"value"`
}

type file struct {
	Package string `json:"package"`
	Props   []prop `json:"props"`
}

func ident(s string) bool {
	if s == "" || token.IsKeyword(s) || !utf8.ValidString(s) {
		return false
	}
	for i, c := range s {
		if c == '_' || unicode.IsLetter(c) || i > 0 && unicode.IsDigit(c) {
			continue
		}
		return false
	}
	return true
}

func (f *file) valid() bool {
	if !ident(f.Package) || f.Package == "_" {
		return false
	}
	for i, p := range f.Props {
		if !ident(p.Name) {
			return false
		}
		for _, q := range f.Props[:i] {
			if p.Name == q.Name {
				return false
			}
		}
		if p.Doc != "" && !plain(p.Doc) {
			return false
		}
	}
	return true
}

// plain prose: words separated by single spaces, the first one starting with a
// letter, without characters that have a meaning in Go doc comments.
func plain(s string) bool {
	if !utf8.ValidString(s) || strings.TrimSpace(s) != s || strings.Contains(s, "  ") || strings.ContainsAny(s, "\t\n\r`[]#") || strings.Contains(s, "''") {
		return false
	}
	for i, c := range s {
		if i == 0 && !unicode.IsLetter(c) || !unicode.IsPrint(c) {
			return false
		}
	}
	return true
}

func build(f *file) *metavars.File {
	m := &metavars.File{Package: f.Package}
	for _, p := range f.Props {
		m.Properties = append(m.Properties, metavars.Property{Name: p.Name, Doc: p.Doc, Value: string(p.Value)})
	}
	return m
}

func same(m *metavars.File, f *file) error {
	if m == nil {
		return errors.New("no file")
	}
	if m.Package != f.Package {
		return fmt.Errorf("package %q, want %q", m.Package, f.Package)
	}
	if len(m.Properties) != len(f.Props) {
		return fmt.Errorf("%d properties, want %d: %q", len(m.Properties), len(f.Props), m.Properties)
	}
	for i, p := range f.Props {
		want := metavars.Property{Name: p.Name, Doc: p.Doc, Value: string(p.Value)}
		if m.Properties[i] != want {
			return fmt.Errorf("property %d is %q, want %q", i, m.Properties[i], want)
		}
	}
	return nil
}

// roundtrip writes m, whose contents are f, and reads it back.
func roundtrip(m *metavars.File, f *file) (*metavars.File, error) {
	var buf bytes.Buffer
	if err := metavars.Write(&buf, m); err != nil {
		return nil, fmt.Errorf("Write(%q): %v", f, err)
	}
	src := buf.Bytes()
	if err := same(m, f); err != nil {
		return nil, fmt.Errorf("Write(%q) changed the file: %v", f, err)
	}
	canon, err := format.Source(src)
	if err != nil {
		return nil, fmt.Errorf("Write(%q) is not Go source: %v\n%s", f, err, src)
	}
	if !bytes.Equal(canon, src) {
		return nil, fmt.Errorf("Write(%q) is not in gofmt form:\n%s", f, src)
	}
	got, err := metavars.Read(bytes.NewReader(src))
	if err != nil {
		return nil, fmt.Errorf("Read of Write(%q): %v\n%s", f, err, src)
	}
	if err := same(got, f); err != nil {
		return nil, fmt.Errorf("round trip of %q: %v\n%s", f, err, src)
	}
	return got, nil
}

func (f *file) Check(r *pbt.Rec) error {
	if !f.valid() {
		return pbt.ErrInvalid
	}
	if _, err := roundtrip(build(f), f); err != nil {
		return err
	}
	special := false
	for _, p := range f.Props {
		if strconv.Quote(string(p.Value)) != `"`+string(p.Value)+`"` {
			special = true
		}
	}
	if special {
		r.Class("value needs quoting")
	}
	if len(f.Props) >= 2 || special {
		r.NonTrivial()
	}
	return nil
}

func (f *file) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, g := range f.shrink() {
		out = append(out, g)
	}
	return out
}

func (f *file) shrink() []*file {
	var out []*file
	for i, p := range f.Props {
		out = append(out, &file{f.Package, slices.Delete(slices.Clone(f.Props), i, i+1)})
		edit := func(q prop) {
			g := &file{f.Package, slices.Clone(f.Props)}
			g.Props[i] = q
			if g.valid() {
				out = append(out, g)
			}
		}
		if p.Doc != "" {
			edit(prop{p.Name, "", p.Value})
		}
		v := p.Value
		if len(v) > 1 {
			edit(prop{p.Name, p.Doc, v[:len(v)/2]})
			edit(prop{p.Name, p.Doc, v[len(v)/2:]})
		}
		if len(v) < 40 {
			for k := range len(v) {
				edit(prop{p.Name, p.Doc, v[:k] + v[k+1:]})
			}
		}
		if len(p.Name) > 1 {
			edit(prop{"a" + strconv.Itoa(i), p.Doc, v})
		}
	}
	return out
}

// history is a sequence of operations on one file.
type history struct {
	Init file   `json:"init"`
	Ops  []step `json:"ops"`
}

// step: get, add, set, reload (write and read back), append (to the list itself),
// copy (go on with a copy of the file), swap (go on with the file last copied, or
// the copy).
type step struct {
	Op    string `json:"op"`
	Name  string `json:"name,omitempty"`
	Doc   string `json:"doc,omitempty"`
	Value qstr   `json:"value,omitempty"`
}

func (h *history) Check(r *pbt.Rec) error {
	if !h.Init.valid() {
		return pbt.ErrInvalid
	}
	model := &file{h.Init.Package, slices.Clone(h.Init.Props)}
	m := build(&h.Init)
	refused := 0
	var aside *metavars.File
	var asideModel *file
	for k, s := range h.Ops {
		at := -1
		for i, p := range model.Props {
			if p.Name == s.Name {
				at = i
			}
		}
		where := func() string { return fmt.Sprintf("operation %d %q on %q", k, s, model) }
		switch s.Op {
		case "get":
			v, ok := m.Get(s.Name)
			if ok != (at >= 0) || ok && v != string(model.Props[at].Value) {
				return fmt.Errorf("%s: %q, %v", where(), v, ok)
			}
		case "add":
			if !ident(s.Name) || s.Doc != "" && !plain(s.Doc) {
				return pbt.ErrInvalid
			}
			err := m.Add(metavars.Property{Name: s.Name, Doc: s.Doc, Value: string(s.Value)})
			if (err != nil) != (at >= 0) {
				return fmt.Errorf("%s: error %v", where(), err)
			}
			if at < 0 {
				model.Props = append(model.Props, prop{s.Name, s.Doc, s.Value})
			} else {
				refused++
			}
		case "set":
			err := m.Set(s.Name, string(s.Value))
			if (err != nil) != (at < 0) {
				return fmt.Errorf("%s: error %v", where(), err)
			}
			if at >= 0 {
				model.Props[at].Value = s.Value
			} else {
				refused++
			}
		case "reload":
			n, err := roundtrip(m, model)
			if err != nil {
				return fmt.Errorf("%s: %v", where(), err)
			}
			m = n
		case "append":
			if !ident(s.Name) || s.Doc != "" && !plain(s.Doc) {
				return pbt.ErrInvalid
			}
			if at >= 0 {
				continue
			}
			m.Properties = append(m.Properties, metavars.Property{Name: s.Name, Doc: s.Doc, Value: string(s.Value)})
			model.Props = append(model.Props, prop{s.Name, s.Doc, s.Value})
		case "copy":
			cp := *m
			cp.Properties = slices.Clone(m.Properties)
			aside, asideModel = m, &file{model.Package, slices.Clone(model.Props)}
			m = &cp
		case "swap":
			if aside == nil {
				continue
			}
			m, aside = aside, m
			model, asideModel = asideModel, model
		default:
			return pbt.ErrInvalid
		}
		if err := same(m, model); err != nil {
			return fmt.Errorf("after %s: %v", where(), err)
		}
		if aside != nil {
			if err := same(aside, asideModel); err != nil {
				return fmt.Errorf("after %s on another copy: %v", where(), err)
			}
		}
	}
	for _, p := range model.Props {
		if v, ok := m.Get(p.Name); !ok || v != string(p.Value) {
			return fmt.Errorf("at the end: Get(%q) = %q, %v, want %q", p.Name, v, ok, p.Value)
		}
	}
	if refused > 0 {
		r.Class("with refused operations")
	}
	if len(h.Ops) >= 2 {
		r.NonTrivial()
	}
	return nil
}

func (h *history) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := range h.Ops {
		out = append(out, &history{h.Init, slices.Delete(slices.Clone(h.Ops), i, i+1)})
	}
	for _, f := range h.Init.shrink() {
		out = append(out, &history{*f, h.Ops})
	}
	return out
}

// long is a file with one thing of a size around 2^8 to 2^16.
type long struct {
	F     string `json:"f"` // value, doc, name, props
	N     int    `json:"n"`
	Piece qstr   `json:"piece"`
}

func (l *long) Check(r *pbt.Rec) error {
	if l.N < 1 || l.N > 1<<18 || len(l.Piece) < 1 || len(l.Piece) > 20 {
		return pbt.ErrInvalid
	}
	f := &file{Package: "long", Props: []prop{{Name: "first", Value: "1"}, {Name: "last", Doc: "the last", Value: "2"}}}
	switch l.F {
	case "value":
		f.Props[0].Value = qstr(strings.Repeat(string(l.Piece), l.N))
	case "doc":
		f.Props[0].Doc = "text" + strings.Repeat(string(l.Piece), l.N) + "z"
		if !plain(f.Props[0].Doc) {
			return pbt.ErrInvalid
		}
	case "name":
		f.Props[0].Name = "n" + strings.Repeat(string(l.Piece), l.N)
		if !ident(f.Props[0].Name) {
			return pbt.ErrInvalid
		}
	case "props":
		for i := 0; i < l.N; i++ {
			p := prop{Name: fmt.Sprintf("p%d", i), Value: qstr(fmt.Sprint(i, string(l.Piece)))}
			if i%5 == 0 {
				p.Doc = fmt.Sprint("of number ", i)
			}
			f.Props = append(f.Props, p)
		}
	default:
		return pbt.ErrInvalid
	}
	r.NonTrivial()
	short := func(err error) error {
		s := err.Error()
		if len(s) > 600 {
			s = s[:300] + " ... " + s[len(s)-300:]
		}
		return fmt.Errorf("%d times %q as %s: %s", l.N, l.Piece, l.F, s)
	}
	got, err := roundtrip(build(f), f)
	if err != nil {
		return short(err)
	}
	// The operations, at the ends and in the middle.
	for _, i := range []int{0, 1, len(f.Props) / 2, len(f.Props) - 1} {
		p := f.Props[i]
		if v, ok := got.Get(p.Name); !ok || v != string(p.Value) {
			return short(fmt.Errorf("Get(%q) = %q, %v", p.Name, v, ok))
		}
		if got.Add(metavars.Property{Name: p.Name, Value: "x"}) == nil {
			return short(fmt.Errorf("Add of the existing %q succeeded", p.Name))
		}
		f.Props[i].Value += "\n"
		if err := got.Set(p.Name, string(f.Props[i].Value)); err != nil {
			return short(err)
		}
	}
	if err := got.Add(metavars.Property{Name: "added", Value: "v"}); err != nil {
		return short(err)
	}
	f.Props = append(f.Props, prop{Name: "added", Value: "v"})
	if got.Set("absent", "x") == nil {
		return short(errors.New("Set of an unknown name succeeded"))
	}
	if _, err := roundtrip(got, f); err != nil {
		return short(err)
	}
	return nil
}

func (l *long) Shrinks() []pbt.Case {
	return []pbt.Case{&long{l.F, l.N / 2, l.Piece}, &long{l.F, l.N - l.N/8, l.Piece}, &long{l.F, l.N - 1, l.Piece}}
}

// disk uses WriteFile and ReadFile, twice on the same path, and the release tool's
// bump command.
type disk struct {
	First  file   `json:"first"`
	Second file   `json:"second"`
	Bump   string `json:"bump,omitempty"`
	Date   qstr   `json:"date,omitempty"`
}

func (d *disk) Check(r *pbt.Rec) error {
	if !d.First.valid() || !d.Second.valid() || strings.Contains(string(d.Date), "\x00") {
		return pbt.ErrInvalid
	}
	dir, err := os.MkdirTemp("", "verif-c20-")
	if err != nil {
		pbt.HarnessFailure(err.Error())
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "vars.go")
	for _, f := range []*file{&d.First, &d.Second} {
		if err := metavars.WriteFile(path, build(f)); err != nil {
			return fmt.Errorf("WriteFile(%q): %v", f, err)
		}
		got, err := metavars.ReadFile(path)
		if err != nil {
			return fmt.Errorf("ReadFile after WriteFile(%q): %v", f, err)
		}
		if err := same(got, f); err != nil {
			return fmt.Errorf("file round trip of %q: %v", f, err)
		}
	}
	r.NonTrivial()
	tool := os.Getenv("VERIF_RELEASE")
	if d.Bump == "" || tool == "" {
		return nil
	}
	want := &file{d.Second.Package, slices.Clone(d.Second.Props)}
	version, date := -1, -1
	for i, p := range want.Props {
		switch p.Name {
		case "releaseversion":
			version = i
		case "releasedate":
			date = i
		}
	}
	res := cli.Run(tool, cli.Limits{}, "", "bump", "-vars", path, "-date="+string(d.Date), d.Bump)
	if err := res.Crash(); err != nil {
		return fmt.Errorf("bump -date=%q %s of %q: %v", d.Date, d.Bump, d.Second, err)
	}
	if (res.Code != 0) != (version < 0 || date < 0) {
		return fmt.Errorf("bump -date=%q %s of %q: %v", d.Date, d.Bump, d.Second, res)
	}
	if version < 0 || date < 0 {
		// Setting an unknown name is an error; whether the other value has been
		// set by then is not specified.
		r.Class("bump refused")
		got, err := metavars.ReadFile(path)
		if err != nil {
			return fmt.Errorf("ReadFile after refused bump of %q: %v", d.Second, err)
		}
		for _, f := range []int{version, date} {
			if f >= 0 && f < len(got.Properties) {
				got.Properties[f].Value = string(want.Props[f].Value)
			}
		}
		if err := same(got, want); err != nil {
			return fmt.Errorf("refused bump -date=%q %s of %q: %v", d.Date, d.Bump, d.Second, err)
		}
		return nil
	}
	r.Class("bump")
	want.Props[version].Value = qstr(d.Bump)
	want.Props[date].Value = d.Date
	got, err := metavars.ReadFile(path)
	if err != nil {
		return fmt.Errorf("ReadFile after bump of %q: %v", d.Second, err)
	}
	if err := same(got, want); err != nil {
		return fmt.Errorf("bump -date=%q %s of %q: %v", d.Date, d.Bump, d.Second, err)
	}
	return nil
}

func (d *disk) Shrinks() []pbt.Case {
	var out []pbt.Case
	if d.Bump != "" {
		out = append(out, &disk{d.First, d.Second, "", ""})
	}
	for _, f := range d.First.shrink() {
		out = append(out, &disk{*f, d.Second, d.Bump, d.Date})
	}
	for _, f := range d.Second.shrink() {
		out = append(out, &disk{d.First, *f, d.Bump, d.Date})
	}
	return out
}

var names = []string{"a", "b", "x1", "doi", "zenodoid", "releaseversion", "releasedate", "conceptdoi", "A", "Abc_Def", "string", "nil", "true", "iota", "init", "main", "len", "_x", "x_", "é", "世界", "Ωmega", "naïve", "v2", "aVeryLongPropertyNameIndeedForAlignment", "any", "error", "T", "ſ", "ｆｕｌｌ"}

func name(t *rapid.T, label string) string {
	if gens.Uni(t, label, 0, 2) > 0 {
		return gens.Pick(t, label, names...)
	}
	r := gens.Rand(t)
	letters := []rune("abcxyzABC_éß世Ω")
	for {
		var b strings.Builder
		for i, n := 0, 1+r.IntN(8); i < n; i++ {
			if i > 0 && r.IntN(4) == 0 {
				b.WriteByte(byte('0' + r.IntN(10)))
			} else {
				b.WriteRune(letters[r.IntN(len(letters))])
			}
		}
		if s := b.String(); ident(s) && s != "_" {
			return s
		}
	}
}

var words = []string{"the", "Version", "of", "release", "DOI", "e.g.", "100%", "%d", "%s", "(see below)", "a,", "x;", "it's", "\"quoted\"", "semi-colon", "résumé", "世界", "v1.2.3", "https://doi.org/10.5281/zenodo.4625263", "*/", "/*", "//", "TODO:", "Deprecated:", "1.", "-", "+", "=", "\\n", "\\", "{", "}", "<b>", "&", "_", "~", "$x", "|", "!", "?", "e:", "package", "var", ")", "import"}

func doc(t *rapid.T) string {
	r := gens.Rand(t)
	for {
		w := []string{gens.Pick(t, "first", "the", "Version", "DOI", "a", "É", "package", "var", "go:build", "line", "export", "nolint", "Deprecated:")}
		for i, n := 0, r.IntN(gens.Pick(t, "words", 1, 4, 12, 60)); i < n; i++ {
			w = append(w, words[r.IntN(len(words))])
		}
		if s := strings.Join(w, " "); plain(s) {
			return s
		}
	}
}

var pieces = []string{"\n", "\r", "\r\n", "\t", "\"", "'", "`", "\\", "\\n", "\\x", "\x00", "\a", "\x7f", "\x80", "\xff", "\xc3", "\xe4\xb8", "é", "世", "\u2028", "\u2029", "\u00a0", "\u00ad", "\ufeff", "\ufffd", "\ufffe", "\U0001f600", "\U000e0001", "\U0010ffff", "\u200b", "\u202e", "%", "%d", "%!", "%%", "//", "/*", "*/", "$", "${x}", " ", "  ", "a", "1.2.3", "= \"x\"", ")", "var (", "package", "\\u0041", "\\", "0", "+"}

func value(t *rapid.T) qstr {
	r := gens.Rand(t)
	switch gens.Uni(t, "value", 0, 5) {
	case 0:
		return qstr(gens.Pick(t, "v", "", " ", "0.4.0", "2021-10-30", "10.5281/zenodo.4625263", "5622943"))
	case 1: // random bytes
		b := make([]byte, r.IntN(40))
		for i := range b {
			b[i] = byte(r.UintN(256))
		}
		return qstr(b)
	case 2: // random runes
		var b strings.Builder
		for i, n := 0, r.IntN(20); i < n; i++ {
			b.WriteRune(rune(r.IntN(gens.Pick(t, "plane", 0x80, 0x800, 0x10000, 0x110000))))
		}
		return qstr(b.String())
	case 3: // long
		return qstr(strings.Repeat(pieces[r.IntN(len(pieces))]+"x", r.IntN(gens.Pick(t, "long", 100, 3000))))
	}
	var b strings.Builder
	for i, n := 0, r.IntN(gens.Pick(t, "n", 3, 8, 20)); i < n; i++ {
		b.WriteString(pieces[r.IntN(len(pieces))])
	}
	return qstr(b.String())
}

func genFile(t *rapid.T) *file {
	f := &file{Package: gens.Pick(t, "package", "meta", "main", "p", "x_test", "Éa", "世界", "string", "documentation")}
	if gens.Uni(t, "pkg", 0, 3) == 0 {
		f.Package = name(t, "pkgname")
	}
	n := gens.Uni(t, "n", 0, gens.Pick(t, "max", 2, 6, 20))
	docs := gens.Pick(t, "docs", 0, 2, 4)
	for i := 0; i < n; i++ {
		p := prop{Name: name(t, "name"), Value: value(t)}
		if docs > 0 && gens.Uni(t, "hasdoc", 0, 3) < docs {
			p.Doc = doc(t)
		}
		dup := false
		for _, q := range f.Props {
			dup = dup || q.Name == p.Name
		}
		if !dup {
			f.Props = append(f.Props, p)
		}
	}
	return f
}

func genHistory(t *rapid.T) pbt.Case {
	h := &history{Init: *genFile(t)}
	if len(h.Init.Props) > 4 && gens.Uni(t, "cut", 0, 1) == 0 {
		h.Init.Props = h.Init.Props[:2]
	}
	pool := []string{name(t, "pool"), name(t, "pool"), name(t, "pool"), "a", "b"}
	for _, p := range h.Init.Props {
		pool = append(pool, p.Name)
	}
	// Near misses of existing names.
	for _, p := range pool[:len(pool):len(pool)] {
		for _, q := range []string{strings.ToUpper(p), strings.ToLower(p), p + "1", "x" + p, string([]rune(p)[:1])} {
			if ident(q) && q != "_" && gens.Uni(t, "near", 0, 3) == 0 {
				pool = append(pool, q)
			}
		}
	}
	for i, n := 0, gens.Uni(t, "ops", 1, gens.Pick(t, "len", 4, 12, 30)); i < n; i++ {
		s := step{Op: gens.Pick(t, "op", "get", "add", "add", "set", "set", "reload", "append", "copy", "swap")}
		if s.Op != "reload" && s.Op != "copy" && s.Op != "swap" {
			s.Name = gens.Pick(t, "name", pool...)
		}
		if s.Op == "get" || s.Op == "set" {
			if gens.Uni(t, "empty", 0, 20) == 0 {
				s.Name = ""
			}
		}
		if s.Op == "add" || s.Op == "set" || s.Op == "append" {
			s.Value = value(t)
		}
		if (s.Op == "add" || s.Op == "append") && rapid.Bool().Draw(t, "doc") {
			s.Doc = doc(t)
		}
		h.Ops = append(h.Ops, s)
	}
	return h
}

func genDisk(t *rapid.T) pbt.Case {
	d := &disk{First: *genFile(t), Second: *genFile(t)}
	if gens.Uni(t, "bump", 0, 3) == 0 {
		d.Bump = fmt.Sprintf("%d.%d.%d", gens.Uni(t, "v", 0, 30), gens.Uni(t, "v", 0, 30), gens.Uni(t, "v", 0, 3000))
		d.Date = qstr(strings.ReplaceAll(string(value(t)), "\x00", ""))
		for _, n := range []string{"releaseversion", "releasedate"} {
			has := false
			for _, p := range d.Second.Props {
				has = has || p.Name == n
			}
			if !has && gens.Uni(t, "have", 0, 6) > 0 {
				at := gens.Uni(t, "at", 0, len(d.Second.Props))
				d.Second.Props = slices.Insert(d.Second.Props, at, prop{Name: n, Value: value(t)})
			}
		}
	}
	return d
}

// ladder takes files, values, comments and histories of growing size.
func ladder(e *pbt.Enum) {
	gens.Steps(pbt.Pick(e.Tier, 70, 300), pbt.Pick(e.Tier, 300, 1025), func(n int) bool {
		f := file{Package: "ladder"}
		h := &history{Init: file{Package: "ladder"}}
		for i := 0; i < n; i++ {
			p := prop{Name: fmt.Sprintf("p%d", i), Value: qstr(fmt.Sprint("value ", i))}
			if i%3 == 0 {
				p.Doc = "of x" + strings.Repeat("x", i)
			}
			f.Props = append(f.Props, p)
			h.Ops = append(h.Ops, step{Op: "add", Name: p.Name, Doc: p.Doc, Value: p.Value})
		}
		for _, i := range []int{0, n / 2, n - 1, n} {
			name := fmt.Sprintf("p%d", i)
			h.Ops = append(h.Ops, step{Op: "get", Name: name}, step{Op: "set", Name: name, Value: "new\n"}, step{Op: "add", Name: name, Value: "again"}, step{Op: "reload"}, step{Op: "get", Name: name})
		}
		if e.Mine() && !e.Do(&f) || e.Mine() && !e.Do(h) {
			return false
		}
		for _, piece := range []string{"x", "\"", "\\", "\n", "\t", "`", "é", "\u2028", "\x00", "\xff", "世", " ", "a b\r\n", "'", "%", "//", "/*"} {
			if e.Mine() && !e.Do(&file{Package: "value", Props: []prop{{Name: "v", Doc: "text " + strings.Repeat("y", n), Value: qstr(strings.Repeat(piece, n))}, {Name: strings.Repeat("N", n), Value: qstr(piece)}}}) {
				return false
			}
		}
		return true
	})
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:   "C20",
		Rule: "A case is a metadata file, or a history of get/add/set/write-and-read operations on one; it is non-trivial when the file has two properties or a value that needs escaping, or the history two operations. Oracle: equality with the description after the round trip (names, values, docs, order), go/format fixpoint, and an ordered-map model compared after every operation.",
		Assumptions: []string{
			"Documentation is one line of words separated by single spaces, starting with a letter and without characters that Go doc comments interpret (gofmt rewrites other comments).",
			"Names within a file are distinct (adding an existing name is an error); the package name is not the blank identifier, which Go does not allow.",
			"Writing to a writer that fails is not part of the property.",
		},
		Kinds: map[string]func() pbt.Case{
			"long":    func() pbt.Case { return &long{} },
			"file":    func() pbt.Case { return &file{} },
			"history": func() pbt.Case { return &history{} },
			"disk":    func() pbt.Case { return &disk{} },
		},
		Sections: []pbt.Section{
			{Name: "every-byte-and-rune", Enum: func(e *pbt.Enum) {
				block := func(vs []qstr) bool {
					if !e.Mine() {
						return true
					}
					f := &file{Package: "runes"}
					for i, v := range vs {
						f.Props = append(f.Props, prop{Name: "v" + strconv.Itoa(i), Value: v})
					}
					return e.Do(f)
				}
				for a := 0; a < 256; a++ {
					var vs []qstr
					for b := 0; b < 256; b++ {
						vs = append(vs, qstr([]byte{byte(a), byte(b)}))
					}
					if !block(append(vs, qstr([]byte{byte(a)}))) {
						return
					}
				}
				top := pbt.Pick(e.Tier, rune(0x20000), rune(unicode.MaxRune+1))
				for r := rune(0); r < top; r += 256 {
					var vs []qstr
					for k := r; k < r+256; k++ {
						vs = append(vs, qstr(string(k)))
					}
					if !block(vs) {
						return
					}
				}
			}},
			{Name: "short-strings", Enum: func(e *pbt.Enum) {
				n := len(pieces)
				for a := 0; a < n; a++ {
					for b := 0; b < n; b++ {
						if !e.Mine() {
							continue
						}
						f := &file{Package: "short"}
						for c := 0; c < n; c++ {
							f.Props = append(f.Props, prop{Name: "v" + strconv.Itoa(c), Value: qstr(pieces[a] + pieces[b] + pieces[c])})
						}
						if !e.Do(f) {
							return
						}
					}
				}
			}},
			{Name: "short-histories", Enum: func(e *pbt.Enum) {
				var steps []step
				for _, n := range []string{"a", "b"} {
					steps = append(steps, step{Op: "get", Name: n}, step{Op: "add", Name: n, Value: "1"}, step{Op: "add", Name: n, Doc: "doc of it", Value: ""}, step{Op: "set", Name: n, Value: "2\n"})
				}
				steps = append(steps, step{Op: "reload"})
				inits := []file{{Package: "p"}, {Package: "p", Props: []prop{{Name: "a", Value: "x"}}}, {Package: "p", Props: []prop{{Name: "b", Doc: "about b", Value: "x"}, {Name: "a", Value: "y"}}}}
				depth := pbt.Pick(e.Tier, 3, 4)
				for _, init := range inits {
					ops := []step{}
					var rec func() bool
					rec = func() bool {
						if len(ops) == depth {
							return e.Do(&history{init, slices.Clone(ops)})
						}
						for _, s := range steps {
							if len(ops) == 1 && !e.Mine() {
								continue
							}
							ops = append(ops, s)
							ok := rec()
							ops = ops[:len(ops)-1]
							if !ok {
								return false
							}
						}
						return true
					}
					if !rec() {
						return
					}
				}
			}},
			{Name: "ladder", Enum: ladder},
			{Name: "long", CaseCPU: 300, Enum: func(e *pbt.Enum) {
				for _, n := range []int{255, 256, 1023, 4090, 4096, 4097, 8192, 16384, 32768, 65530, 65535, 65536, 65537, 70000} {
					for _, c := range []long{{"value", n, "x"}, {"value", n, "\\"}, {"value", n, "\n"}, {"value", n, "\xff"}, {"value", n, "世"}, {"value", n, "a\r\n\""}, {"doc", n, "y"}, {"doc", n, " ab"}, {"doc", n, "é"}, {"name", n, "N"}, {"name", n, "世9"}, {"props", n, "z"}, {"props", n, "\t`"}} {
						if e.Mine() && !e.Do(&c) {
							return
						}
					}
				}
			}},
			{Name: "random-files", Fuzz: 90, N: 30000, Gen: func(t *rapid.T) pbt.Case { return genFile(t) }},
			{Name: "random-histories", Fuzz: 90, N: 20000, Gen: genHistory},
			{Name: "files-on-disk", N: 4000, Gen: genDisk},
		},
	})
}
