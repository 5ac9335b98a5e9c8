package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------- AST of the contract language

type Expr struct {
	Op    string // ident, int, str, char, call, field, index, slice, unary, binary, forall, exists, ite, let, old, entry
	Name  string
	Args  []*Expr
	Vars  []Param
	Trigs [][]*Expr
	N     int64
	Src   string
}

type Param struct {
	Name string
	Type string
	Any  bool // quantified without the condition that the value exists
}

type Clause struct {
	Kind  string // requires ensures modifies decreases inv measure use ih trigger fresh
	Tags  []string
	Label string
	E     *Expr
	Where *Expr
	WVar  string
	Holes []Param
	Src   string
	When  *Expr
}

type Contract struct {
	Kind     string // func, extern, funcval, local
	Key      string
	Pkg      string
	Params   []Param
	Results  []Param
	Props    []string
	Lend     []string // properties that may assume the postconditions as discharged by the checks of Props
	Clauses  []*Clause
	Trusted  bool
	NoVerify bool
	Inline   bool
	Flags    map[string]bool
	Locals   []*Contract
	File     string
	Line     int
	Frames   bool
}

func (c *Contract) get(kind string) []*Clause {
	var r []*Clause
	for _, cl := range c.Clauses {
		if cl.Kind == kind {
			r = append(r, cl)
		}
	}
	return r
}

type SpecFn struct {
	Name    string
	Pkg     string
	Params  []Param
	Ret     string
	Body    *Expr // nil: uninterpreted
	Reads   []string
	Rec     bool
	Opaque  bool
	Sealed  bool // unfolded only where revealed
	state   int
	heapVar []*Term
}

type Lemma struct {
	Name    string
	Pkg     string
	Params  []Param
	Props   []string
	Clauses []*Clause
	Axiom   bool
	File    string
	two     bool
}

type GhostVar struct {
	Name string
	Type string
	Pkg  string
}

type SpecDB struct {
	Contracts map[string]*Contract
	Funcvals  map[string]*Contract
	Fns       map[string]*SpecFn
	Lemmas    map[string]*Lemma
	LemmaList []*Lemma
	FnList    []*SpecFn
	Ghosts    map[string]*GhostVar
	DTs       []*Contract
	Loops     []*Contract // loop templates for all functions of a package
}

// ---------- lexer

type tok struct {
	kind string // id int str char op eof
	s    string
	n    int64
	pos  int
}

func lexSpec(src string) []tok {
	var ts []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "++", ":="}
outer:
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], 0, i})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i + 1
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' && strings.HasPrefix(src[i:], "0x")) {
				j++
			}
			n, err := strconv.ParseInt(strings.ReplaceAll(src[i:j], "_", ""), 0, 64)
			if err != nil {
				panic("bad number " + src[i:j])
			}
			ts = append(ts, tok{"int", src[i:j], n, i})
			i = j
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic("bad string " + src[i:j+1])
			}
			ts = append(ts, tok{"str", s, 0, i})
			i = j + 1
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				panic("bad char " + src[i:j+1])
			}
			ts = append(ts, tok{"int", src[i : j+1], int64(r), i})
			i = j + 1
		default:
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o, 0, i})
					i += len(o)
					continue outer
				}
			}
			ts = append(ts, tok{"op", string(c), 0, i})
			i++
		}
	}
	return append(ts, tok{"eof", "", 0, len(src)})
}

type parserS struct {
	ts  []tok
	i   int
	src string
}

func (p *parserS) peek() tok { return p.ts[p.i] }
func (p *parserS) next() tok { p.i++; return p.ts[p.i-1] }
func (p *parserS) is(s string) bool {
	t := p.peek()
	return (t.kind == "op" || t.kind == "id") && t.s == s
}
func (p *parserS) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parserS) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("expected %q but found %q in: %s", s, p.peek().s, p.src))
	}
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *parserS) expr() *Expr { return p.bin(0) }

func (p *parserS) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.kind == "op" && t.s == "?" && min <= 0 {
			p.next()
			a := p.bin(0)
			p.expect(":")
			b := p.bin(0)
			l = &Expr{Op: "ite", Args: []*Expr{l, a, b}}
			continue
		}
		pr, ok := binPrec[t.s]
		if !ok || t.kind != "op" && t.s != "in" || pr < min || pr == 0 {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		l = &Expr{Op: "binary", Name: t.s, Args: []*Expr{l, r}}
	}
}

func (p *parserS) unary() *Expr {
	t := p.peek()
	if t.kind == "op" {
		switch t.s {
		case "!", "-":
			p.next()
			return &Expr{Op: "unary", Name: t.s, Args: []*Expr{p.unary()}}
		case "*":
			p.next()
			return &Expr{Op: "deref", Args: []*Expr{p.unary()}}
		}
	}
	return p.postfix(p.primary())
}

func (p *parserS) primary() *Expr {
	t := p.next()
	switch t.kind {
	case "int":
		return &Expr{Op: "int", N: t.n}
	case "str":
		return &Expr{Op: "str", Name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
		if t.s == "[" { // sequence literal [a, b] ; needs at least one element, or []T for empty
			if p.accept("]") {
				ty := p.typ()
				return &Expr{Op: "emptyseq", Name: ty}
			}
			e := &Expr{Op: "seqlit"}
			for {
				e.Args = append(e.Args, p.expr())
				if p.accept("]") {
					return e
				}
				p.expect(",")
			}
		}
	case "id":
		switch t.s {
		case "forall", "exists":
			e := &Expr{Op: t.s}
			for {
				n := p.next().s
				any := n == "any"
				if any {
					n = p.next().s
				}
				e.Vars = append(e.Vars, Param{Name: n, Type: p.typ(), Any: any})
				if !p.accept(",") {
					break
				}
			}
			for p.accept("{") {
				var tr []*Expr
				for {
					tr = append(tr, p.expr())
					if p.accept("}") {
						break
					}
					p.expect(",")
				}
				e.Trigs = append(e.Trigs, tr)
			}
			p.expect("::")
			e.Args = []*Expr{p.bin(0)}
			return e
		case "let":
			n := p.next().s
			p.expect(":=")
			v := p.expr()
			p.expect("in")
			b := p.bin(0)
			return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}}
		}
		return &Expr{Op: "ident", Name: t.s}
	}
	panic(fmt.Sprintf("unexpected %q at %d in: %s", t.s, t.pos, p.src))
}

func (p *parserS) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			e = &Expr{Op: "field", Name: p.next().s, Args: []*Expr{e}}
		case p.accept("("):
			c := &Expr{Op: "call", Args: []*Expr{e}}
			if !p.accept(")") {
				for {
					c.Args = append(c.Args, p.expr())
					if p.accept(")") {
						break
					}
					p.expect(",")
				}
			}
			e = c
		case p.accept("["):
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, nil, hi}}
				continue
			}
			if p.accept("*") {
				p.expect("]")
				e = &Expr{Op: "all", Args: []*Expr{e}}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				if p.accept("]") {
					e = &Expr{Op: "slice", Args: []*Expr{e, i, nil}}
					continue
				}
				hi := p.expr()
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, i, hi}}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}}
		default:
			return e
		}
	}
}

// typ parses a type and returns its text
func (p *parserS) typ() string {
	if p.accept("*") {
		return "*" + p.typ()
	}
	if p.accept("[") {
		p.expect("]")
		return "[]" + p.typ()
	}
	n := p.next()
	s := n.s
	if n.kind != "id" {
		panic(fmt.Sprintf("bad type at %q in: %s", n.s, p.src))
	}
	if s == "map" || s == "set" || s == "amap" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		if s == "set" {
			return "set[" + k + "]"
		}
		return s + "[" + k + "]" + p.typ()
	}
	if p.accept(".") {
		s += "." + p.next().s
	}
	return s
}

func (p *parserS) params(close string) []Param {
	var ps []Param
	if p.accept(close) {
		return nil
	}
	for {
		n := p.next().s
		ps = append(ps, Param{Name: n, Type: p.typ()})
		if p.accept(close) {
			return ps
		}
		p.expect(",")
	}
}

func newParserS(src string) *parserS { return &parserS{ts: lexSpec(src), src: src} }

func parseExpr(src string) *Expr {
	p := newParserS(src)
	e := p.expr()
	if p.peek().kind != "eof" {
		panic(fmt.Sprintf("trailing %q in: %s", p.peek().s, src))
	}
	e.Src = strings.TrimSpace(src)
	return e
}

// ---------- files

var topKw = map[string]bool{"package": true, "func": true, "extern": true, "funcval": true, "uf": true, "spec": true, "opaque": true, "sealed": true, "axiom": true, "lemma": true, "ghost": true, "datatype": true, "loops": true}
var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "decreases": true, "inv": true, "alt": true, "measure": true, "use": true, "reveal": true, "hide": true, "ih": true, "trigger": true, "props": true, "lend": true, "fresh": true, "trusted": true, "inline": true, "flag": true, "local": true, "end": true, "assume": true, "trace": true}

func firstWord(l string) string {
	l = strings.TrimSpace(l)
	for i, c := range l {
		if !(unicode.IsLetter(c) || c == '_') {
			return l[:i]
		}
	}
	return l
}

type rawItem struct {
	kw   string
	text string
	line int
}

func splitItems(src string) []rawItem {
	var items []rawItem
	for n, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		w := firstWord(l)
		col0 := l[0] != ' ' && l[0] != '\t'
		if col0 && topKw[w] || !col0 && clauseKw[w] {
			items = append(items, rawItem{w, strings.TrimSpace(strings.TrimSpace(l)[len(w):]), n + 1})
		} else {
			if len(items) == 0 {
				panic("text before first item: " + l)
			}
			items[len(items)-1].text += "\n" + l
		}
	}
	return items
}

func parseTags(s string) (tags []string, label, rest string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		in := s[1:i]
		if strings.Contains(in, "C") && !strings.Contains(in, "(") {
			for _, t := range strings.FieldsFunc(in, func(r rune) bool { return r == ',' || r == ' ' }) {
				tags = append(tags, t)
			}
			s = strings.TrimSpace(s[i+1:])
		}
	}
	// label:  word followed by ": "
	for i, c := range s {
		if c == ':' && i > 0 && i+1 < len(s) && (s[i+1] == ' ' || s[i+1] == '\n') {
			label = s[:i]
			s = strings.TrimSpace(s[i+1:])
			break
		}
		if !(unicode.IsLetter(c) || unicode.IsDigit(c) || c == '_' || c == '-') {
			break
		}
	}
	return tags, label, s
}

func (db *SpecDB) load(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		db.loadFile(filepath.Base(f), string(b))
	}
}

func (db *SpecDB) loadFile(file, src string) {
	pkg := ""
	var cur *Contract
	var outer *Contract
	var lem *Lemma
	for _, it := range splitItems(src) {
		func() {
			defer func() {
				if r := recover(); r != nil {
					panic(fmt.Sprintf("%s:%d: %v", file, it.line, r))
				}
			}()
			if topKw[it.kw] {
				cur, lem, outer = nil, nil, nil
			}
			switch it.kw {
			case "package":
				pkg = it.text
			case "func", "funcval", "extern", "loops":
				c := &Contract{Kind: it.kw, Pkg: pkg, File: file, Line: it.line, Flags: map[string]bool{}}
				parseSig(c, it.text)
				cur = c
				switch it.kw {
				case "loops":
					db.Loops = append(db.Loops, c)
				case "funcval":
					db.Funcvals[c.Key] = c
					k := "func("
					for _, p := range c.Params {
						k += p.Type + ","
					}
					k += ")("
					for _, p := range c.Results {
						k += p.Type + ","
					}
					if db.Funcvals[k+")"] == nil {
						db.Funcvals[k+")"] = c
					}
				default:
					if it.kw == "func" {
						c.Key = pkg + "." + c.Key
					} else {
						c.Trusted = true
					}
					if db.Contracts[c.Key] != nil {
						panic("duplicate contract " + c.Key)
					}
					db.Contracts[c.Key] = c
				}
			case "local":
				if outer == nil {
					outer = cur
				}
				c := &Contract{Kind: "local", Pkg: pkg, File: file, Line: it.line, Flags: map[string]bool{}}
				parseSig(c, it.text)
				outer.Locals = append(outer.Locals, c)
				cur = c
			case "end":
				if outer != nil {
					cur, outer = outer, nil
				}
			case "uf", "spec", "opaque", "sealed":
				i := strings.Index(it.text, "(")
				f := &SpecFn{Name: strings.TrimSpace(it.text[:i]), Pkg: pkg, Opaque: it.kw == "opaque" || it.kw == "sealed", Sealed: it.kw == "sealed"}
				p := newParserS(it.text[i+1:])
				f.Params = p.params(")")
				f.Ret = p.typ()
				if it.kw != "uf" {
					p.expect("=")
					f.Body = p.expr()
					f.Body.Src = it.text
				}
				if p.peek().kind != "eof" {
					panic("trailing " + p.peek().s)
				}
				if db.Fns[f.Name] != nil {
					panic("duplicate spec function " + f.Name)
				}
				db.Fns[f.Name] = f
				db.FnList = append(db.FnList, f)
			case "ghost":
				fs := strings.Fields(it.text)
				db.Ghosts[fs[0]] = &GhostVar{Name: fs[0], Type: strings.Join(fs[1:], " "), Pkg: pkg}
			case "datatype":
				c := &Contract{Kind: "datatype", Pkg: pkg}
				parseSig(c, it.text)
				db.DTs = append(db.DTs, c)
			case "axiom", "lemma":
				i := strings.IndexAny(it.text, "(:")
				l := &Lemma{Name: strings.TrimSpace(it.text[:i]), Pkg: pkg, Axiom: it.kw == "axiom", File: file}
				if it.text[i] == '(' {
					p := newParserS(it.text[i+1:])
					l.Params = p.params(")")
				} else {
					l.Clauses = append(l.Clauses, &Clause{Kind: "ensures", E: parseExpr(it.text[i+1:])})
				}
				if db.Lemmas[l.Name] != nil {
					panic("duplicate lemma " + l.Name)
				}
				db.Lemmas[l.Name] = l
				db.LemmaList = append(db.LemmaList, l)
				lem = l
			default:
				cl := parseClause(it)
				if lem != nil {
					if it.kw == "props" {
						lem.Props = strings.FieldsFunc(it.text, func(r rune) bool { return r == ' ' || r == ',' })
						return
					}
					lem.Clauses = append(lem.Clauses, cl...)
					return
				}
				if cur == nil {
					panic("clause outside of a contract")
				}
				switch it.kw {
				case "props":
					cur.Props = strings.FieldsFunc(it.text, func(r rune) bool { return r == ' ' || r == ',' })
				case "lend":
					cur.Lend = strings.FieldsFunc(it.text, func(r rune) bool { return r == ' ' || r == ',' })
				case "trusted":
					cur.Trusted = true
				case "inline":
					cur.Inline = true
				case "flag":
					for _, f := range strings.Fields(it.text) {
						cur.Flags[f] = true
					}
				default:
					cur.Clauses = append(cur.Clauses, cl...)
				}
			}
		}()
	}
}

// parseSig: Go-style "(t *T) Name(params) (results)" or "pkg.Name(params) (results)"
func parseSig(c *Contract, text string) {
	text = strings.TrimSpace(text)
	p := newParserS(text)
	key := ""
	if p.accept("(") {
		rp := p.params(")")
		c.Params = append(c.Params, rp[0])
		t := rp[0].Type
		ptr := strings.HasPrefix(t, "*")
		t = strings.TrimPrefix(t, "*")
		pk := ""
		if i := strings.Index(t, "."); i >= 0 {
			pk, t = t[:i+1], t[i+1:]
		}
		if ptr {
			t = "(*" + t + ")"
		}
		key = pk + t + "."
	}
	for {
		key += p.next().s
		if p.accept(".") {
			key += "."
			continue
		}
		break
	}
	c.Key = key
	if strings.Contains(key, "$") {
		c.Params = nil // a closure inside a method has no receiver
	}
	if p.accept("(") {
		c.Params = append(c.Params, p.params(")")...)
		if p.accept("(") {
			c.Results = p.params(")")
		}
	}
	if p.peek().kind != "eof" {
		panic("trailing " + p.peek().s)
	}
}

func parseClause(it rawItem) []*Clause {
	switch it.kw {
	case "requires", "ensures", "assume", "trace":
		t, l, r := parseTags(it.text)
		return []*Clause{{Kind: it.kw, Tags: t, Label: l, E: parseExpr(r), Src: r}}
	case "decreases":
		t, l, r := parseTags(it.text)
		return []*Clause{{Kind: it.kw, Tags: t, Label: l, E: parseExpr(r), Src: r}}
	case "inv", "alt", "measure":
		// inv [tags] (hole T, hole T) : expr
		t, _, r := parseTags(it.text)
		cl := &Clause{Kind: it.kw, Tags: t, Src: r}
		r = strings.TrimSpace(r)
		if strings.HasPrefix(r, "<") {
			p := newParserS(r[1:])
			cl.Holes = p.params(">")
			rest := strings.TrimPrefix(r[1+p.peek().pos:], ":")
			cl.E = parseExpr(rest)
		} else {
			cl.E = parseExpr(r)
		}
		return []*Clause{cl}
	case "modifies":
		if strings.TrimSpace(it.text) == "nothing" {
			return []*Clause{{Kind: "modifies", Src: "nothing"}}
		}
		var cs []*Clause
		p := newParserS(it.text)
		for {
			cl := &Clause{Kind: "modifies", Src: it.text}
			cl.E = p.bin(6)
			if p.accept("where") {
				cl.WVar = p.next().s
				p.expect(":")
				cl.Where = p.expr()
			}
			cs = append(cs, cl)
			if !p.accept(",") {
				break
			}
		}
		if p.peek().kind != "eof" {
			panic("trailing " + p.peek().s)
		}
		return cs
	case "reveal", "hide":
		return []*Clause{{Kind: it.kw, Src: strings.TrimSpace(it.text)}}
	case "use", "ih":
		p := newParserS(it.text)
		cl := &Clause{Kind: it.kw, Src: it.text}
		cl.E = p.expr()
		if p.accept("when") {
			cl.When = p.expr()
		}
		if p.accept("at") {
			cl.Label = p.next().s
		}
		if p.peek().kind != "eof" {
			panic("trailing " + p.peek().s)
		}
		return []*Clause{cl}
	case "trigger":
		p := newParserS(it.text)
		cl := &Clause{Kind: "trigger", E: &Expr{Op: "seqlit"}}
		for {
			cl.E.Args = append(cl.E.Args, p.expr())
			if !p.accept(",") {
				break
			}
		}
		return []*Clause{cl}
	case "fresh":
		return []*Clause{{Kind: "fresh", Src: strings.TrimSpace(it.text)}}
	}
	return nil
}
