package main

// A reference reading of a journal, written from the properties (C01-C03, C10, C11, C13,
// C19), used only to judge what the compiled program did on a concrete input.

import (
	"math/big"
	"path/filepath"
	"strings"
	"unicode"
)

type Posting struct {
	Account   string
	Commodity string
	Q         int64
	Has       bool
	Comments  []string
}
type Tx struct {
	Periodic bool
	File     string
	Date     string
	State    int
	Payee    string
	Note     string
	Notes    []string
	Ps       []Posting
}
type Loc struct {
	File string
	Line int
}
type RErr struct {
	Chain []Loc // outermost first; empty when the error is found at the end of a file
	Msg   string
	Vague bool // the properties do not settle whether this is refused
}

type reader struct {
	files map[string]string
	txs   []Tx
	cur   *Tx
	post  *Posting
	open  []string
	stop  int
}

func Read(files map[string]string, root string) ([]Tx, *RErr) {
	r := &reader{files: files}
	err := r.file(root)
	return r.txs, err
}

func refuse(msg string) *RErr { return &RErr{Msg: msg} }

func splitLines(s string) []string {
	if s == "" {
		return nil
	}
	ls := strings.Split(s, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	for i, l := range ls {
		ls[i] = strings.TrimSuffix(l, "\r")
	}
	return ls
}

func (r *reader) file(path string) *RErr {
	text, ok := r.files[filepath.Clean(path)]
	if !ok {
		return refuse("no such file")
	}
	r.open = append(r.open, path)
	for i, l := range splitLines(text) {
		if err := r.line(path, []rune(l)); err != nil {
			err.Chain = append([]Loc{{path, i + 1}}, err.Chain...)
			return err
		}
	}
	if err := r.end(); err != nil {
		return err
	}
	r.open = r.open[:len(r.open)-1]
	return nil
}

func comment(c rune) bool { return c == ';' || c == '#' }

// white counts white space from i on (a tab counts 2) and returns the position after it
func white(l []rune, i int) (int, int) {
	n := 0
	for i < len(l) && unicode.IsSpace(l[i]) {
		if l[i] == '\t' {
			n += 2
		} else if l[i] == ' ' {
			n++
		}
		i++
	}
	return n, i
}

// field reads up to a tab, two spaces or a comment mark
func field(l []rune, i int) (string, int) {
	j := i
	for j < len(l) && l[j] != '\t' && !comment(l[j]) && !(l[j] == ' ' && j+1 < len(l) && l[j+1] == ' ') {
		j++
	}
	e := j
	if e > i && l[e-1] == ' ' {
		e--
	}
	return string(l[i:e]), j
}

func (r *reader) line(path string, l []rune) *RErr {
	if len(l) == 0 {
		return r.end()
	}
	switch c := l[0]; {
	case comment(c):
		return nil
	case c == 'i':
		j := 0
		for j < len(l) && l[j] != ' ' {
			j++
		}
		if string(l[:j]) != "include" {
			return refuse("unexpected directive")
		}
		n, k := white(l, j)
		if n == 0 {
			return refuse("include without a space")
		}
		name, _ := field(l, k)
		if name == "" {
			return refuse("include without a name")
		}
		dir, _ := filepath.Split(path)
		full := dir + name
		if err := r.end(); err != nil {
			return err
		}
		for _, o := range r.open {
			if filepath.Clean(o) == filepath.Clean(full) {
				return refuse("includes itself")
			}
		}
		return r.file(full)
	case c == '~':
		n, k := white(l, 1)
		if n == 0 {
			return refuse("~ without a space")
		}
		p, _ := field(l, k)
		if err := r.end(); err != nil {
			return err
		}
		d := "0001-01-01"
		if len(p) == 7 && p[4] == '-' && validDate(p+"-01") {
			d = p + "-01"
		}
		r.cur = &Tx{Periodic: true, Date: d}
		return nil
	case unicode.IsNumber(c):
		return r.header(l)
	case c == '\t' || c == ' ' && len(l) > 1 && l[1] == ' ':
		return r.posting(l)
	}
	return refuse("unexpected line")
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) > 0
}

func num(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func daysIn(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// validDate: yyyy?mm?dd with one separator out of - . / and an existing day
func validDate(s string) bool {
	if len(s) != 10 || s[4] != s[7] || s[4] != '-' && s[4] != '.' && s[4] != '/' {
		return false
	}
	if !digits(s[:4]) || !digits(s[5:7]) || !digits(s[8:]) {
		return false
	}
	y, m, d := num(s[:4]), num(s[5:7]), num(s[8:])
	return m >= 1 && m <= 12 && d >= 1 && d <= daysIn(y, m)
}

func iso(s string) string { return s[:4] + "-" + s[5:7] + "-" + s[8:] }

func (r *reader) header(l []rune) *RErr {
	if err := r.end(); err != nil {
		return err
	}
	j := 0
	for j < len(l) && l[j] != ' ' {
		j++
	}
	date := string(l[:j])
	if !validDate(date) {
		return refuse("malformed date")
	}
	t := &Tx{Date: iso(date)}
	_, i := white(l, j)
	if i < len(l) && (l[i] == '!' || l[i] == '*') {
		t.State = 1
		if l[i] == '*' {
			t.State = 2
		}
		_, i = white(l, i+1)
	}
	t.Payee, i = field(l, i)
	if i < len(l) && l[i] == '\t' {
		i++
	}
	for i < len(l) && l[i] == ' ' {
		i++
	}
	if i < len(l) && comment(l[i]) {
		i++
	}
	for i < len(l) && l[i] == ' ' {
		i++
	}
	t.Note = string(l[i:])
	r.cur = t
	return nil
}

func (r *reader) posting(l []rune) *RErr {
	_, i := white(l, 0)
	if i == len(l) {
		return nil
	}
	if comment(l[i]) {
		i++
		for i < len(l) && l[i] == ' ' {
			i++
		}
		if r.cur == nil {
			return nil
		}
		c := string(l[i:])
		if r.post != nil {
			r.post.Comments = append(r.post.Comments, c)
		} else {
			r.cur.Notes = append(r.cur.Notes, c)
		}
		return nil
	}
	if !unicode.IsLetter(l[i]) {
		return refuse("not a posting")
	}
	if r.cur == nil {
		return refuse("posting outside an entry")
	}
	j := i
	for j < len(l) && l[j] != '\t' && !(l[j] == ' ' && j+1 < len(l) && l[j+1] == ' ') {
		j++
	}
	e := j
	if l[e-1] == ' ' {
		e--
	}
	if err := r.flush(); err != nil {
		return err
	}
	r.post = &Posting{Account: string(l[i:e])}
	n, i := white(l, j)
	if i == len(l) || comment(l[i]) {
		return nil
	}
	if n < 2 {
		return refuse("not enough spaces")
	}
	j = i
	for j < len(l) && !unicode.IsNumber(l[j]) && l[j] != '-' && l[j] != '+' && l[j] != ' ' && l[j] != '\t' {
		j++
	}
	c := string(l[i:j])
	n, i = white(l, j)
	if n > 0 {
		c += " "
	}
	a, _ := field(l, i)
	q, ok := readAmount(a)
	if !ok {
		return refuse("malformed amount")
	}
	r.post.Commodity, r.post.Q, r.post.Has = c, q, true
	return nil
}

// readAmount: [+-]d+[.d[d]] as hundredths within 64 bits (the most negative value excluded)
func readAmount(s string) (int64, bool) {
	t := strings.TrimPrefix(strings.TrimPrefix(s, "+"), "-")
	if len(s)-len(t) > 1 {
		return 0, false
	}
	w, d, point := strings.Cut(t, ".")
	if !digits(w) || point && (!digits(d) || len(d) > 2) {
		return 0, false
	}
	for len(d) < 2 {
		d += "0"
	}
	v, _ := new(big.Int).SetString(w+d, 10)
	if strings.HasPrefix(s, "-") {
		v.Neg(v)
	}
	if !v.IsInt64() || v.Int64() == -1<<63 {
		return 0, false
	}
	return v.Int64(), true
}

func (r *reader) flush() *RErr {
	if r.post == nil {
		return nil
	}
	if !r.post.Has {
		for _, p := range r.cur.Ps {
			if !p.Has {
				return refuse("two omitted amounts")
			}
		}
	}
	r.cur.Ps = append(r.cur.Ps, *r.post)
	r.post = nil
	return nil
}

func (r *reader) end() *RErr {
	t := r.cur
	if t == nil {
		return nil
	}
	if err := r.flush(); err != nil {
		return err
	}
	if t.Periodic {
		has := false
		for _, p := range t.Ps {
			has = has || p.Account == "_budget_root_"
		}
		if !has {
			open := 0
			for _, p := range t.Ps {
				if !p.Has {
					open++
				}
			}
			if open == 0 {
				t.Ps = append(t.Ps, Posting{Account: "_budget_root_"})
			}
		}
	}
	sum := new(big.Int)
	open := -1
	c := ""
	for i, p := range t.Ps {
		if !p.Has {
			open = i
			continue
		}
		sum.Add(sum, big.NewInt(p.Q))
		if p.Commodity != "" {
			c = p.Commodity
		}
	}
	if open >= 0 {
		sum.Neg(sum)
		if !sum.IsInt64() || sum.Int64() == -1<<63 {
			return refuse("does not balance within range")
		}
		t.Ps[open].Q, t.Ps[open].Has, t.Ps[open].Commodity = sum.Int64(), true, c
	} else if sum.Sign() != 0 {
		return refuse("does not balance")
	}
	t.File = r.open[len(r.open)-1]
	r.txs = append(r.txs, *t)
	r.cur = nil
	return nil
}
