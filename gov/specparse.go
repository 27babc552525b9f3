package main

// Contract files: a small line-oriented format whose expressions are Go-like.

import (
	"fmt"
	"os"
	"strings"
	"unicode"
)

type Expr struct {
	Op    string // "id","num","str","char","call","idx","slice","sel","un","bin","forall","exists","meta","let"
	S     string
	A     []*Expr
	Vars  []Binder
	Trigs [][]*Expr
	Src   string
}

type Binder struct{ Name, Type string }

type lexTok struct{ k, s string }

func lex(s string) ([]lexTok, error) {
	var out []lexTok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$' || c == '@':
			j := i + 1
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '\'') {
				j++
			}
			out = append(out, lexTok{"id", s[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i + 1
			for j < len(s) && (unicode.IsDigit(rune(s[j])) || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
				j++
			}
			out = append(out, lexTok{"num", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						sb.WriteByte('\n')
					case 't':
						sb.WriteByte('\t')
					default:
						sb.WriteByte(s[j])
					}
					j++
					continue
				}
				sb.WriteByte(s[j])
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string in %q", s)
			}
			out = append(out, lexTok{"str", sb.String()})
			i = j + 1
		case c == '\'':
			// character literal
			j := i + 1
			var v int
			if s[j] == '\\' {
				switch s[j+1] {
				case 'n':
					v = 10
				case 't':
					v = 9
				case 'r':
					v = 13
				case 'b':
					v = 8
				case 'f':
					v = 12
				default:
					v = int(s[j+1])
				}
				j += 2
			} else {
				v = int(s[j])
				j++
			}
			if j >= len(s) || s[j] != '\'' {
				return nil, fmt.Errorf("bad char literal in %q", s)
			}
			out = append(out, lexTok{"num", fmt.Sprint(v)})
			i = j + 1
		default:
			ok := false
			for _, op := range []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", "..", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "=", ";", "?"} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, lexTok{"op", op})
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("bad character %q in %q", c, s)
			}
		}
	}
	return append(out, lexTok{"eof", ""}), nil
}

type exprParser struct {
	t   []lexTok
	i   int
	src string
}

func (p *exprParser) peek() lexTok { return p.t[p.i] }
func (p *exprParser) next() lexTok { t := p.t[p.i]; p.i++; return t }
func (p *exprParser) is(s string) bool {
	return p.t[p.i].k == "op" && p.t[p.i].s == s
}
func (p *exprParser) expect(s string) {
	if !p.is(s) {
		panic(fmt.Sprintf("contract syntax: expected %q, got %q at token %d in %q", s, p.peek().s, p.i, p.src))
	}
	p.i++
}

func parseExpr(s string) *Expr {
	t, err := lex(s)
	if err != nil {
		panic("contract syntax: " + err.Error())
	}
	p := &exprParser{t: t, src: s}
	e := p.expr(0)
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("contract syntax: trailing %q in %q", p.peek().s, s))
	}
	e.Src = s
	return e
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *exprParser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		// chained comparison a <= b < c
		if pr == 5 && t.s != "==" && t.s != "!=" {
			if n := p.peek(); n.k == "op" && (n.s == "<" || n.s == "<=" || n.s == ">" || n.s == ">=") {
				first := &Expr{Op: "bin", S: t.s, A: []*Expr{l, r}}
				acc := first
				for {
					n := p.peek()
					if n.k == "op" && (n.s == "<" || n.s == "<=" || n.s == ">" || n.s == ">=") {
						p.next()
						r2 := p.expr(pr + 1)
						acc = &Expr{Op: "bin", S: "&&", A: []*Expr{acc, {Op: "bin", S: n.s, A: []*Expr{r, r2}}}}
						r = r2
						continue
					}
					break
				}
				l = acc
				continue
			}
		}
		l = &Expr{Op: "bin", S: t.s, A: []*Expr{l, r}}
	}
}

func (p *exprParser) unary() *Expr {
	t := p.peek()
	if t.k == "op" {
		switch t.s {
		case "!":
			p.next()
			return &Expr{Op: "un", S: "!", A: []*Expr{p.unary()}}
		case "-":
			p.next()
			return &Expr{Op: "un", S: "-", A: []*Expr{p.unary()}}
		case "*":
			p.next()
			return &Expr{Op: "un", S: "*", A: []*Expr{p.unary()}}
		}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		e := &Expr{Op: t.s}
		for {
			n := p.next()
			ty := p.typ()
			e.Vars = append(e.Vars, Binder{n.s, ty})
			if p.is(",") {
				p.next()
				continue
			}
			break
		}
		p.expect("::")
		for p.is("{") {
			p.next()
			var tr []*Expr
			for !p.is("}") {
				tr = append(tr, p.expr(0))
				if p.is(",") {
					p.next()
				}
			}
			p.next()
			e.Trigs = append(e.Trigs, tr)
		}
		e.A = []*Expr{p.expr(0)}
		return e
	}
	if t.k == "id" && t.s == "let" {
		p.next()
		n := p.next()
		p.expect("=")
		v := p.expr(0)
		p.expect(";")
		b := p.expr(0)
		return &Expr{Op: "let", S: n.s, A: []*Expr{v, b}}
	}
	return p.postfix()
}

func (p *exprParser) typ() string {
	var s string
	for p.is("*") || p.is("[") {
		if p.is("[") {
			p.next()
			p.expect("]")
			s += "[]"
			continue
		}
		p.next()
		s += "*"
	}
	t := p.next()
	s += t.s
	for p.is(".") {
		p.next()
		s += "." + p.next().s
	}
	return s
}

func (p *exprParser) postfix() *Expr {
	t := p.next()
	var e *Expr
	switch {
	case t.k == "num":
		e = &Expr{Op: "num", S: t.s}
	case t.k == "str":
		e = &Expr{Op: "str", S: t.s}
	case t.k == "id":
		if strings.HasPrefix(t.s, "$") {
			e = &Expr{Op: "meta", S: t.s}
			if p.is(":") && false {
				p.next()
			}
		} else {
			e = &Expr{Op: "id", S: t.s}
		}
	case t.k == "op" && t.s == "(":
		e = p.expr(0)
		p.expect(")")
	default:
		panic(fmt.Sprintf("contract syntax: unexpected %q (token %d) in %q", t.s, p.i-1, p.src))
	}
	for {
		switch {
		case p.is("."):
			p.next()
			e = &Expr{Op: "sel", S: p.next().s, A: []*Expr{e}}
		case p.is("("):
			p.next()
			var args []*Expr
			for !p.is(")") {
				args = append(args, p.expr(0))
				if p.is(",") {
					p.next()
				}
			}
			p.next()
			if e.Op != "id" {
				panic(fmt.Sprintf("contract syntax: call of non-name in %q", p.src))
			}
			e = &Expr{Op: "call", S: e.S, A: args}
		case p.is("["):
			p.next()
			if p.is(":") {
				p.next()
				hi := p.expr(0)
				p.expect("]")
				e = &Expr{Op: "slice", A: []*Expr{e, nil, hi}}
				continue
			}
			i := p.expr(0)
			if p.is(":") {
				p.next()
				var hi *Expr
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &Expr{Op: "slice", A: []*Expr{e, i, hi}}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "idx", A: []*Expr{e, i}}
		default:
			return e
		}
	}
}

// ---- files ----

type Clause struct {
	E    *Expr
	Tags []string // property ids; empty: base
	Src  string
	Name string
	Meta []Binder // metavariables of loop templates: name, type
}

type Contract struct {
	Key     string
	Params  []string
	Results []string
	Req     []*Clause
	Ens     []*Clause
	Inv     []*Clause
	Mod     []*Expr
	ModAll  bool
	ModSet  bool
	Dec     *Expr
	Flags   map[string]string
	Trusted bool
	File    string
	Hints   []*Clause
	Where   []Named // names for values on entry
	Split   []*Expr // conditions on entry: the body is verified separately under each and its negation
}

type Named struct {
	Name string
	E    *Expr
}

type SpecFn struct {
	Name      string
	Params    []Binder
	Ret       string
	Body      *Expr
	Macro     bool
	Rec       bool
	Opaque    bool
	Heap      bool // depends on the heap: the entries in Reads are passed as extra arguments
	Reads     []string
	ReadSorts map[string]Sort
}

type SpecAxiom struct {
	Name  string
	E     *Expr
	Tags  []string
	Lemma bool
	// lemma parts
	Params []Binder
	Req    []*Expr
	Ens    []*Expr
	Ind    *Expr
	IndReq []string
	Uses   []*Expr
	Trig   [][]*Expr
}

type SpecFile struct {
	Contracts map[string]*Contract
	Order     []string
	Fns       map[string]*SpecFn
	FnOrder   []string
	Axioms    []*SpecAxiom
	Roots     []string
	PureFns   []string // function types whose values are taken as pure functions
}

func newSpecFile() *SpecFile {
	return &SpecFile{Contracts: map[string]*Contract{}, Fns: map[string]*SpecFn{}}
}

// logical lines: continuation lines are indented deeper than their head by starting with at least 4 spaces or '|'
func logicalLines(src string) []string {
	var out []string
	for _, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		ind := 0
		for ind < len(l) && (l[ind] == ' ' || l[ind] == '\t') {
			if l[ind] == '\t' {
				ind += 3
			}
			ind++
			if ind >= len(l) {
				break
			}
		}
		t := strings.TrimSpace(l)
		if (strings.HasPrefix(l, "    ") || strings.HasPrefix(l, "\t\t")) && len(out) > 0 {
			out[len(out)-1] += "\n" + t
			continue
		}
		out = append(out, t)
	}
	return out
}

func splitTags(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		j := strings.Index(s, "]")
		tags := strings.Split(s[1:j], ",")
		for i := range tags {
			tags[i] = strings.TrimSpace(tags[i])
		}
		return tags, strings.TrimSpace(s[j+1:])
	}
	return nil, s
}

func parseNames(s string) []string {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	ps := strings.Split(s, ",")
	for i := range ps {
		ps[i] = strings.TrimSpace(ps[i])
	}
	return ps
}

func parseBinders(s string) []Binder {
	var out []Binder
	for _, p := range parseNames(s) {
		f := strings.Fields(p)
		if len(f) == 1 {
			out = append(out, Binder{f[0], ""})
		} else {
			out = append(out, Binder{f[0], strings.Join(f[1:], "")})
		}
	}
	return out
}

func loadSpec(sf *SpecFile, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	parseSpec(sf, string(b), path)
}

func parseSpec(sf *SpecFile, src, path string) {
	var cur *Contract
	var lem *SpecAxiom
	for _, l := range logicalLines(src) {
		word := l
		if i := strings.IndexAny(l, " \n"); i > 0 {
			word = l[:i]
		}
		rest := strings.TrimSpace(l[len(word):])
		switch word {
		case "include":
			loadSpec(sf, pathJoin(path, rest))
		case "root":
			sf.Roots = append(sf.Roots, parseNames(rest)...)
		case "purefn":
			sf.PureFns = append(sf.PureFns, parseNames(rest)...)
		case "fn":
			// fn KEY(params) (results)
			// KEY may start with "(": find the matching parameter list: last or second-to-last paren group
			key, params, results := splitSig(rest)
			c := sf.Contracts[key]
			if c == nil {
				c = &Contract{Key: key, Flags: map[string]string{}, File: path}
				sf.Contracts[key] = c
				sf.Order = append(sf.Order, key)
				c.Params, c.Results = parseNames(params), parseNames(results)
			} else if params != "" || results != "" {
				c.Params, c.Results = parseNames(params), parseNames(results)
			}
			cur = c
			lem = nil
		case "req", "ens", "inv", "hint":
			tags, r := splitTags(rest)
			if lem != nil {
				if word == "req" {
					lem.Req = append(lem.Req, parseExpr(r))
				} else {
					lem.Ens = append(lem.Ens, parseExpr(r))
				}
				continue
			}
			cl := &Clause{Tags: tags, Src: r}
			if word == "inv" && strings.HasPrefix(r, "<") {
				j := strings.Index(r, ">")
				cl.Meta = parseBinders(r[1:j])
				r = strings.TrimSpace(r[j+1:])
			}
			cl.E = parseExpr(r)
			switch word {
			case "req":
				cur.Req = append(cur.Req, cl)
			case "ens":
				cur.Ens = append(cur.Ens, cl)
			case "inv":
				cur.Inv = append(cur.Inv, cl)
			case "hint":
				cur.Hints = append(cur.Hints, cl)
			}
		case "mod":
			cur.ModSet = true
			if rest == "*" {
				cur.ModAll = true
				continue
			}
			if rest == "nothing" || rest == "" {
				continue
			}
			// comma separated expressions at top level
			e := parseExpr("mods(" + rest + ")")
			cur.Mod = append(cur.Mod, e.A...)
		case "where":
			// where x = e: names the value of e on entry
			i := strings.Index(rest, "=")
			cur.Where = append(cur.Where, Named{strings.TrimSpace(rest[:i]), parseExpr(strings.TrimSpace(rest[i+1:]))})
		case "split":
			cur.Split = append(cur.Split, parseExpr("mods("+rest+")").A...)
		case "dec":
			cur.Dec = parseExpr(rest)
		case "flag":
			f := strings.Fields(rest)
			v := ""
			if len(f) > 1 {
				v = strings.Join(f[1:], " ")
			}
			cur.Flags[f[0]] = v
		case "trusted":
			cur.Trusted = true
			cur.Flags["trusted"] = rest
		case "opaque":
			// opaque f: its definition is used only where revealed
			sf.Fns[rest].Opaque = true
			cur, lem = nil, nil
		case "func", "def", "hfunc":
			// func name(params) ret = body
			lp := strings.Index(rest, "(")
			name := strings.TrimSpace(rest[:lp])
			rp := matchParen(rest, lp)
			params := rest[lp+1 : rp]
			tail := strings.TrimSpace(rest[rp+1:])
			var body *Expr
			ret := tail
			if i := strings.Index(tail, "="); i >= 0 {
				ret = strings.TrimSpace(tail[:i])
				body = parseExpr(strings.TrimSpace(tail[i+1:]))
			}
			f := &SpecFn{Name: name, Params: parseBinders(params), Ret: ret, Body: body, Macro: word == "def", Heap: word == "hfunc"}
			if body != nil && mentions(body, name) {
				f.Rec = true
			}
			if _, dup := sf.Fns[name]; dup {
				panic("contract syntax: duplicate spec function " + name)
			}
			sf.Fns[name] = f
			sf.FnOrder = append(sf.FnOrder, name)
			cur, lem = nil, nil
		case "axiom":
			i := strings.Index(rest, ":")
			tags, nm := splitTags(rest[:i])
			sf.Axioms = append(sf.Axioms, &SpecAxiom{Name: nm, Tags: tags, E: parseExpr(rest[i+1:])})
			cur, lem = nil, nil
		case "lemma":
			lp := strings.Index(rest, "(")
			rp := matchParen(rest, lp)
			lem = &SpecAxiom{Name: strings.TrimSpace(rest[:lp]), Lemma: true, Params: parseBinders(rest[lp+1 : rp])}
			sf.Axioms = append(sf.Axioms, lem)
			cur = nil
		case "by":
			lem.Ind = parseExpr(rest)
		case "use":
			e := parseExpr("mods(" + rest + ")")
			lem.Uses = append(lem.Uses, e.A...)
		case "trig":
			e := parseExpr("mods(" + rest + ")")
			lem.Trig = append(lem.Trig, e.A)
		default:
			panic(fmt.Sprintf("contract syntax: unknown directive %q in %s: %s", word, path, l))
		}
	}
}

func pathJoin(base, rel string) string {
	i := strings.LastIndex(base, "/")
	return base[:i+1] + rel
}

func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return j
			}
		}
	}
	panic("unbalanced parens in " + s)
}

func splitSig(s string) (key, params, results string) {
	// key: either (*T).m, (T).m or name; followed by (params) (results)
	i := 0
	if strings.HasPrefix(s, "(") {
		i = matchParen(s, 0) + 1
	}
	j := strings.IndexAny(s[i:], "(")
	if j < 0 {
		return strings.TrimSpace(s), "", ""
	}
	j += i
	key = strings.TrimSpace(s[:j])
	k := matchParen(s, j)
	params = s[j+1 : k]
	rest := strings.TrimSpace(s[k+1:])
	if strings.HasPrefix(rest, "(") {
		results = rest[1 : len(rest)-1]
	} else {
		results = rest
	}
	return
}

func mentions(e *Expr, name string) bool {
	if e == nil {
		return false
	}
	if e.Op == "call" && e.S == name {
		return true
	}
	for _, a := range e.A {
		if mentions(a, name) {
			return true
		}
	}
	return false
}
