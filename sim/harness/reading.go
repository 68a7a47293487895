package main

import (
	"context"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
)

// Checks C08 and C09: read operations on several streams against a reference
// reader, under short reads, read errors at any offset and truncated input.

// refReader is the reference: it knows the whole text.
type refReader struct {
	text  []rune
	pos   int
	weird bool // a datum outside of the modelled syntax was met
}

type rres struct {
	val   string // canonical value
	kind  string // val eof short unspec
	start int    // first rune that must be read
	need  int    // runes [0,need) must have been delivered for the value
	look  int    // runes [0,look) may be looked at
}

func (r *refReader) peek() (rune, bool) {
	if r.pos >= len(r.text) {
		return 0, false
	}
	return r.text[r.pos], true
}

func delim(c rune) bool { return c == '(' || c == ')' || c == ';' || unicode.IsSpace(c) }

// skip passes white space and comments; false means the input ends in a block comment.
func (r *refReader) skip() bool {
	for {
		c, ok := r.peek()
		switch {
		case !ok:
			return true
		case unicode.IsSpace(c):
			r.pos++
		case c == ';':
			for ok && c != '\n' {
				r.pos++
				c, ok = r.peek()
			}
		case c == '#' && r.pos+1 < len(r.text) && r.text[r.pos+1] == '|':
			r.pos += 2
			nest := 1
			for nest > 0 {
				if r.pos >= len(r.text) {
					return false
				}
				two := ""
				if r.pos+1 < len(r.text) {
					two = string(r.text[r.pos : r.pos+2])
				}
				switch two {
				case "|#":
					nest--
					r.pos += 2
				case "#|":
					nest++
					r.pos += 2
				default:
					r.pos++
				}
			}
			// a block comment that is not followed by a delimiter would be
			// the beginning of a token
			if c, ok := r.peek(); ok && !delim(c) {
				r.weird = true
				return true
			}
		default:
			return true
		}
	}
}

// otherNumbers are numbers in other notations than plain decimal integers.
var otherNumbers = map[string]string{
	"1.5": "1.500000", "-2.5e3": "-2500.000000", "100.25": "100.250000", "1e3": "1000.000000",
	"#xFF": "255", "#x1f": "31", "#b101": "5", "#o17": "15",
	"12345678901234567890": "12345678901234567890", "-98765432109876543210": "-98765432109876543210",
}

// rows reads the contents of an array; only plain atoms are modelled as elements.
func (r *refReader) rows(rank int) (string, string) {
	c, ok := r.peek()
	if !ok {
		return "", "short"
	}
	if c != '(' {
		return "", "unspec"
	}
	r.pos++
	var l []string
	for {
		if !r.skip() {
			return "", "short"
		}
		if r.weird {
			return "", "unspec"
		}
		c, ok := r.peek()
		if !ok {
			return "", "short"
		}
		if c == ')' {
			r.pos++
			break
		}
		var v, k string
		if rank > 1 {
			v, k = r.rows(rank - 1)
		} else if v, k = r.datum(); k == "eof" {
			k = "short"
		} else if k == "val" && (v == "." || strings.ContainsAny(v, "\"#'(")) {
			k = "unspec"
		}
		if k != "val" {
			return "", k
		}
		l = append(l, v)
	}
	if len(l) == 0 {
		return "", "unspec"
	}
	// rows of different lengths are not modelled, see genArray
	return "(" + strings.Join(l, " ") + ")", "val"
}

// genArray makes a regular array.
func genArray(r *Rand, dim []int) string {
	var b strings.Builder
	b.WriteByte('(')
	for i := 0; i < dim[0]; i++ {
		if i > 0 {
			b.WriteString(genSpace(r, 1))
		} else {
			b.WriteString(genSpace(r, 0))
		}
		if len(dim) > 1 {
			b.WriteString(genArray(r, dim[1:]))
		} else {
			b.WriteString(r.Str("1", "2", "x", "-7", "name"))
		}
	}
	b.WriteString(genSpace(r, 0))
	b.WriteByte(')')
	return b.String()
}

// datum reads one datum; kind is val, short (cut inside), eof or unspec.
func (r *refReader) datum() (string, string) {
	if !r.skip() {
		return "", "short"
	}
	if r.weird {
		return "", "unspec"
	}
	c, ok := r.peek()
	if !ok {
		return "", "eof"
	}
	inner := func() (string, string) {
		v, k := r.datum()
		if k == "eof" {
			k = "short"
		}
		return v, k
	}
	list := func() ([]string, string) {
		var l []string
		for {
			if !r.skip() {
				return nil, "short"
			}
			if r.weird {
				return nil, "unspec"
			}
			c, ok := r.peek()
			if !ok {
				return nil, "short"
			}
			if c == ')' {
				r.pos++
				return l, "val"
			}
			v, k := inner()
			if k != "val" {
				return nil, k
			}
			l = append(l, v)
		}
	}
	switch c {
	case '(':
		r.pos++
		l, k := list()
		if k != "val" {
			return "", k
		}
		if len(l) == 0 {
			return "nil", "val"
		}
		if l[0] == "." || l[len(l)-1] == "." {
			return "", "unspec"
		}
		for i, x := range l {
			if x == "." && i != len(l)-2 {
				return "", "unspec"
			}
			if x == "." && (l[i+1][0] == '(' || l[i+1] == "nil") {
				return "", "unspec"
			}
		}
		return "(" + strings.Join(l, " ") + ")", "val"
	case ')':
		return "", "unspec"
	case '\'', '`', ',':
		r.pos++
		if x, ok := r.peek(); c == ',' && ok && x == '@' {
			return "", "unspec"
		}
		v, k := inner()
		if k != "val" {
			return "", k
		}
		return map[rune]string{'\'': "(quote ", '`': "(quasiquote ", ',': "(unquote "}[c] + v + ")", "val"
	case '"':
		i := r.pos + 1
		var b strings.Builder
		for {
			if i >= len(r.text) {
				r.pos = len(r.text)
				return "", "short"
			}
			if r.text[i] == '\\' {
				if i+1 >= len(r.text) {
					r.pos = len(r.text)
					return "", "short"
				}
				if x := r.text[i+1]; x != '"' && x != '\\' {
					return "", "unspec"
				}
				b.WriteRune(r.text[i+1])
				i += 2
				continue
			}
			if r.text[i] == '"' {
				break
			}
			b.WriteRune(r.text[i])
			i++
		}
		r.pos = i + 1
		if c, ok := r.peek(); ok && !delim(c) {
			return "", "unspec"
		}
		return fmt.Sprintf("%q", b.String()), "val"
	}
	// a symbol, a number, a character or an array
	from := r.pos
	if c == '#' && from+1 < len(r.text) && r.text[from+1] == '(' {
		r.pos += 2
		l, k := list()
		if k != "val" {
			return "", k
		}
		for _, x := range l {
			if x == "." || strings.ContainsAny(x, "\"#'(") {
				return "", "unspec"
			}
		}
		if len(l) == 0 {
			return "", "unspec"
		}
		return "#(" + strings.Join(l, " ") + ")", "val"
	}
	if c == '#' && from+3 < len(r.text) && r.text[from+1] >= '2' && r.text[from+1] <= '9' && r.text[from+2] == 'a' && r.text[from+3] == '(' {
		rank := int(r.text[from+1] - '0')
		r.pos += 3
		v, k := r.rows(rank)
		if k != "val" {
			return "", k
		}
		return fmt.Sprintf("#%da", rank) + v, "val"
	}
	if c == '#' && from+1 < len(r.text) && r.text[from+1] == '\'' {
		r.pos += 2
		v, k := inner()
		if k != "val" {
			return "", k
		}
		return "(function " + v + ")", "val"
	}
	if c == '|' {
		i := from + 1
		for i < len(r.text) && r.text[i] != '|' {
			if strings.ContainsRune("\\\"'`,#", r.text[i]) {
				return "", "unspec"
			}
			i++
		}
		if i >= len(r.text) {
			r.pos = i
			return "", "short"
		}
		r.pos = i + 1
		if c, ok := r.peek(); ok && !delim(c) {
			return "", "unspec"
		}
		return strings.ToLower(string(r.text[from+1 : i])), "val"
	}
	for {
		c, ok := r.peek()
		if !ok || delim(c) {
			break
		}
		r.pos++
	}
	tok := string(r.text[from:r.pos])
	if v, ok := otherNumbers[tok]; ok {
		return v, "val"
	}
	if strings.HasPrefix(tok, "#\\") {
		name := tok[2:]
		switch name {
		case "space":
			return "#\\20", "val"
		case "newline":
			return "#\\a", "val"
		case "tab":
			return "#\\9", "val"
		}
		if utf8.RuneCountInString(name) == 1 {
			c, _ := utf8.DecodeRuneInString(name)
			if unicode.IsLetter(c) || unicode.IsDigit(c) {
				return fmt.Sprintf("#\\%x", c), "val"
			}
		}
		return "", "unspec"
	}
	num := true
	for i, c := range tok {
		if !(c >= '0' && c <= '9') && !(i == 0 && c == '-' && len(tok) > 1) {
			num = false
		}
		if !(unicode.IsLetter(c) || c >= '0' && c <= '9' || c == '-' || c == '*' || c == ':' && i == 0 || c == '.' && len(tok) == 1) {
			return "", "unspec"
		}
		if i == 0 && c >= '0' && c <= '9' && strings.TrimLeft(tok, "0123456789") != "" {
			return "", "unspec"
		}
	}
	if tok == "." {
		return ".", "val"
	}
	if tok == "-" || tok == ":" || tok == "*" {
		return "", "unspec"
	}
	if tok[0] == '-' && !num || tok[0] == '*' {
		return "", "unspec"
	}
	if num {
		t := strings.TrimPrefix(tok, "-")
		if len(t) > 15 || (len(t) > 1 && t[0] == '0') || tok == "-0" {
			return "", "unspec"
		}
		return tok, "val"
	}
	return strings.ToLower(tok), "val"
}

// op performs one operation on the reference.
func (r *refReader) op(op string) rres {
	if r.weird {
		return rres{kind: "unspec"}
	}
	start := r.pos
	switch op {
	case "read-char":
		c, ok := r.peek()
		if !ok {
			return rres{kind: "eof", start: start, need: len(r.text), look: len(r.text) + 1}
		}
		r.pos++
		if c == utf8.RuneError {
			r.weird = true
			return rres{kind: "unspec"}
		}
		return rres{val: fmt.Sprintf("#\\%x", c), kind: "val", start: start, need: r.pos, look: r.pos}
	case "read-line":
		if r.pos >= len(r.text) {
			return rres{kind: "eof", start: start, need: len(r.text), look: len(r.text) + 1}
		}
		var b strings.Builder
		end := false
		for r.pos < len(r.text) {
			c := r.text[r.pos]
			r.pos++
			if c == '\n' {
				end = true
				break
			}
			b.WriteRune(c)
		}
		s := b.String()
		look := r.pos
		if end {
			s = strings.TrimSuffix(s, "\r")
		} else {
			look++ // the end of the input must be seen
		}
		return rres{val: fmt.Sprintf("%q", s), kind: "val", start: start, need: look, look: look}
	}
	v, k := r.datum()
	switch k {
	case "eof":
		r.pos = len(r.text)
		return rres{kind: k, start: start, need: len(r.text), look: len(r.text) + 1}
	case "short":
		r.pos = len(r.text)
		return rres{kind: k, start: start, need: len(r.text) + 1, look: len(r.text) + 1}
	case "unspec":
		r.weird = true
		return rres{kind: k}
	}
	if v == "." {
		r.weird = true
		return rres{kind: "unspec"}
	}
	return rres{val: v, kind: "val", start: start, need: r.pos, look: r.pos + 1}
}

type RStream struct {
	Kind string `json:"kind"` // file with stdin string wstdin (a file as standard input)
	Text string `json:"text"`
	Cut  int    `json:"cut"`           // the text ends after so many bytes; -1 = whole
	Err  int    `json:"err,omitempty"` // 1+offset at which a read fails; 0 = never
	Keep bool   `json:"keep,omitempty"`
	Why  string `json:"why,omitempty"` // the error
}

type ROp struct {
	S   int    `json:"s"`
	Op  string `json:"op"`            // read read-line read-char
	Eof string `json:"eof,omitempty"` // arguments after the stream
	Std bool   `json:"std,omitempty"` // no stream argument (standard input)

	Wrap int `json:"wrap,omitempty"` // 1 + index of the form around the operation
}

type ReadPlan struct {
	Streams []RStream `json:"streams"`
	Ops     []ROp     `json:"ops"`
	Chunks  []int     `json:"chunks"`
	Split   bool      `json:"split,omitempty"` // one evaluation per operation
	Map     uint64    `json:"map,omitempty"`
}

func (s *RStream) text() string {
	t := s.Text
	if s.Cut >= 0 && s.Cut < len(t) {
		t = t[:s.Cut]
	}
	return t
}

func genDatum(r *Rand, d int) string {
	switch r.W(5, 5, 4, 3, 3, 2, 2, 1, 1, 2, 1, 2, 2) {
	case 11:
		return r.Str("`", ",", "'`", "`,") + genDatum(r, d+1)
	case 12:
		dim := []int{r.Range(1, 3), r.Range(1, 3)}
		if r.P(30) {
			dim = append(dim, r.Range(1, 2))
		}
		return fmt.Sprintf("#%da", len(dim)) + genArray(r, dim)
	case 0:
		if r.P(20) {
			return r.Str("1.5", "-2.5e3", "100.25", "1e3", "#xFF", "#x1f", "#b101", "#o17", "12345678901234567890", "-98765432109876543210")
		}
		return fmt.Sprint(r.N(2000) - 500)
	case 1:
		return r.Str("a", "abc", "sym-1", "x", "日本", "é", "lambda", ":key", "nil", "t", "verylongsymbolname")
	case 2:
		return fmt.Sprintf("\"%s\"", r.Str("", "s", "two words", "a\\\"b", "back\\\\slash", "日本語", "new\nline", "semi;colon", "(paren", "#|no|#", "x'y", strings.Repeat("long", r.N(30))))
	case 3, 4:
		if d > 3 {
			return "()"
		}
		var b strings.Builder
		b.WriteByte('(')
		for i, n := 0, r.N(4); i < n; i++ {
			if i > 0 {
				b.WriteString(genSpace(r, 1))
			} else {
				b.WriteString(genSpace(r, 0))
			}
			b.WriteString(genDatum(r, d+1))
		}
		b.WriteString(genSpace(r, 0))
		b.WriteByte(')')
		return b.String()
	case 5:
		return "'" + genDatum(r, d+1)
	case 6:
		return r.Str("#\\a", "#\\space", "#\\newline", "#\\日", "#\\Z")
	case 7:
		return "#(" + fmt.Sprint(r.N(9)) + " b)"
	case 8:
		return "#'" + r.Str("car", "f")
	case 9:
		return "(" + genDatum(r, d+1) + " . " + r.Str("x", "1", "\"z\"") + ")"
	}
	return "|bar symbol|"
}

// genSpace is white space and comments; with min > 0 there is some.
func genSpace(r *Rand, min int) string {
	var b strings.Builder
	for i, n := 0, min+r.W(6, 3, 1); i < n; i++ {
		switch r.W(8, 4, 1, 1, 1, 1, 1) {
		case 6:
			b.WriteString(r.Str(" #| 1 #| 2 #| 3 |# | # |# #|x|# |# ", " #||#\n", " #|##|#||#|# ", " #|||# ", ";\n", ";; #| \n"))
		case 0:
			b.WriteString(" ")
		case 1:
			b.WriteString("\n")
		case 2:
			b.WriteString(" ; comment \" ( #|\n")
		case 3:
			b.WriteString(" #| block \" ; ( |# ")
		case 4:
			b.WriteString(" #| a #| nested |# b |#\n")
		case 5:
			b.WriteString(r.Str("\t", "\r\n", "  ", "\n\n"))
		}
	}
	return b.String()
}

func genText(r *Rand, n int) string {
	var b strings.Builder
	b.WriteString(genSpace(r, 0))
	for i := 0; i < n; i++ {
		if r.P(12) {
			b.WriteString(r.Str("plain line\n", "日本 text é\r\n", "\n", "x\n", "a b c", "cr\r\r\n", "nul\x00in it\n", "\x00\n", "eof\x1a\n", "\ufeffmark\n", "\x7f\v\f.\u2028\n", "\u0085\u00a0\n", "\r\n", "c\rd\n", "e\n\r\n", "f\r"))
		}
		b.WriteString(genDatum(r, 0))
		b.WriteString(genSpace(r, 1))
	}
	s := b.String()
	if r.P(30) {
		s = strings.TrimRight(s, " \n\t\r")
	}
	return s
}

func genChunks(r *Rand) []int {
	n := r.Range(1, 5)
	c := make([]int, n)
	for i := range c {
		switch r.W(4, 4, 2, 2) {
		case 0:
			c[i] = 1
		case 1:
			c[i] = r.Range(1, 5)
		case 2:
			c[i] = r.Range(5, 60)
		case 3:
			c[i] = 4096
		}
	}
	return c
}

func readGen(eofs bool) func(r *Rand, idx int, tier string) *ReadPlan {
	return func(r *Rand, idx int, tier string) *ReadPlan {
		p := &ReadPlan{Chunks: genChunks(r), Split: r.P(50), Map: r.U64() >> 12}
		n := r.Range(1, 3)
		max := 6
		if tier == "thorough" {
			max = 14
		}
		if eofs {
			max = 4
		}
		for i := 0; i < n; i++ {
			k := r.Str("file", "with", "stdin", "string", "wstdin")
			for _, s := range p.Streams {
				if k == "stdin" && s.Kind == "stdin" || k == "wstdin" && s.Kind == "wstdin" {
					k = "file"
				}
			}
			s := RStream{Kind: k, Text: genText(r, r.N(max)), Cut: -1}
			if r.P(6) {
				s.Text = strings.Repeat("long line ", 500+r.N(200)) + "\n" + s.Text
			}
			if r.N(1500) == 0 { // longer than any buffer
				s.Text = strings.Repeat(r.Str("0123456789abcde\n", "no end of line ", "日本 ", "(a b)\n"), r.Range(3000, 12000)) + "\n" + s.Text
				if k == "string" {
					s.Kind = "file"
				}
			}
			if eofs && r.P(70) {
				s.Cut = r.N(len(s.Text) + 1)
				for s.Cut > 0 && s.Cut < len(s.Text) && !utf8.RuneStart(s.Text[s.Cut]) {
					s.Cut--
				}
			}
			if k != "string" && r.P(map[bool]int{true: 15, false: 40}[eofs]) {
				s.Err = 1 + r.N(len(s.text())+2)
				s.Keep = r.P(50)
				s.Why = r.Str("", "", "", "unexpected EOF", "closed pipe", "no progress", "closed", "EAGAIN", "EBADF", "EISDIR", "timeout", "short buffer")
			}
			p.Streams = append(p.Streams, s)
		}
		cnt := r.Range(2, 16)
		for i := 0; i < cnt; i++ {
			o := ROp{S: r.N(n), Op: r.Str("read", "read", "read-line", "read-char"), Eof: r.Str("", "", " nil", " nil 'eof", " t", " nil 7", " t 'eof", " nil nil", " t nil")}
			if k := p.Streams[o.S].Kind; (k == "stdin" || k == "wstdin") && r.P(40) {
				o.Std, o.Eof = true, ""
			}
			p.Ops = append(p.Ops, o)
		}
		if eofs {
			for s := range p.Streams {
				op := r.Str("read", "read", "read-line")
				for i := 0; i < r.Range(3, 9); i++ {
					p.Ops = append(p.Ops, ROp{S: s, Op: op, Eof: r.Str("", " nil", " nil 'eof", " t")})
				}
				for i := 0; i < 3; i++ {
					p.Ops = append(p.Ops, ROp{S: s, Op: r.Str("read", "read-line", "read-char"), Eof: r.Str("", " nil", " nil 'eof", " t", " nil 7", " nil nil")})
				}
			}
		}
		if r.P(25) {
			for i := range p.Ops {
				if r.P(50) {
					p.Ops[i].Wrap = 1 + r.N(len(wraps))
				}
			}
		}
		return p
	}
}

func (p *ReadPlan) form(o ROp) string {
	f := fmt.Sprintf("(%s s%d%s)", o.Op, o.S, o.Eof)
	if o.Std {
		f = "(" + o.Op + ")"
	}
	if o.Wrap > 0 {
		f = strings.Replace(wraps[(o.Wrap-1)%len(wraps)], "@", f, 1)
	}
	return f
}

// opens makes the streams available as s0, s1, ... around @.
func (p *ReadPlan) opens() (string, string) {
	pre, around := "", "@"
	for i, s := range p.Streams {
		switch s.Kind {
		case "file":
			pre += fmt.Sprintf("(setq s%d (open-input-file \"r%d.txt\")) ", i, i)
		case "string":
			pre += fmt.Sprintf("(setq s%d (create-string-input-stream %s)) ", i, lispString(s.text()))
		case "stdin":
			pre += fmt.Sprintf("(setq s%d (standard-input)) ", i)
		case "with":
			around = strings.Replace(around, "@", fmt.Sprintf("(with-open-input-file (s%d \"r%d.txt\") @)", i, i), 1)
		case "wstdin":
			pre += fmt.Sprintf("(setq s%d (open-input-file \"r%d.txt\")) ", i, i)
			around = strings.Replace(around, "@", fmt.Sprintf("(with-standard-input s%d @)", i), 1)
		}
	}
	return pre, around
}

func lispString(s string) string {
	return "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(s) + "\""
}

func eofWant(o ROp) string {
	switch o.Eof {
	case "", " t", " t 'eof", " t nil":
		return "error eof"
	case " nil", " nil nil":
		return "value nil"
	case " nil 7":
		return "value 7"
	}
	return "value eof"
}

func readExec(eofs bool) func(p *ReadPlan, r *Run) {
	return func(p *ReadPlan, r *Run) {
		var fs []simos.Fault
		for i, s := range p.Streams {
			path := fmt.Sprintf("/r%d.txt", i)
			if s.Kind == "stdin" {
				path = "stdin"
			}
			if s.Err > 0 && s.Kind != "string" && s.Err-1 <= len(s.text()) {
				why := s.Why
				if why == "" {
					why = "EIO"
				}
				fs = append(fs, simos.Fault{Op: "readat", Path: path, Off: s.Err - 1, Err: why, Keep: s.Keep})
			}
		}
		simos.Reset(fs, -1, p.Chunks)
		refs := make([]*refReader, len(p.Streams))
		dead := make([]bool, len(p.Streams))
		half := make([]int, len(p.Streams))
		stdin := -1 // stream that (read) without arguments uses
		for i, s := range p.Streams {
			switch s.Kind {
			case "stdin":
				simos.SetStdin(s.text())
				if stdin < 0 {
					stdin = i
				}
			case "wstdin":
				simos.Put(fmt.Sprintf("r%d.txt", i), s.text())
				stdin = i
			default:
				simos.Put(fmt.Sprintf("r%d.txt", i), s.text())
			}
			refs[i] = &refReader{text: []rune(s.text())}
			if !utf8.ValidString(s.text()) {
				dead[i] = true
			}
		}
		host = &hostSide{faults: map[int]string{}}
		begin(0, p.Map)
		defer r.end()
		w := gmnlisp.New()
		ctx := context.Background()
		pre, around := p.opens()
		defs := ""
		for i := range p.Streams {
			defs += fmt.Sprintf("(defglobal s%d nil) ", i)
		}
		for _, o := range p.Ops {
			if o.Wrap > 0 {
				defs += wrapDefs
				break
			}
		}
		if s := evalText(w, ctx, defs+pre+" 0"); s != "value 0" {
			r.Fail("open", "opening the streams fails: %s", s)
			return
		}
		// every operation is guarded, so that the next ones happen anyway
		results := make([]string, 0, len(p.Ops))
		wrapOnly := around == "@"
		if p.Split && wrapOnly {
			for _, o := range p.Ops {
				results = append(results, evalText(w, ctx, p.form(o)))
			}
		} else {
			var body strings.Builder
			for _, o := range p.Ops {
				// (h0 x) records the value; an error is recorded by the host of the handler
				fmt.Fprintf(&body, "(block op (with-handler (lambda (c) (h1 (cond ((instancep c (class <end-of-stream>)) 'end-of-stream) (t 'other))) (return-from op nil)) (h0 %s)))\n", p.form(o))
			}
			out := evalText(w, ctx, strings.Replace(around, "@", body.String(), 1))
			for _, l := range host.log {
				switch {
				case strings.HasPrefix(l, "h0:"):
					results = append(results, "value "+l[3:])
				case l == "h1:end-of-stream":
					results = append(results, "error eof")
				default:
					results = append(results, "error io")
				}
			}
			if strings.HasPrefix(out, "crash") {
				r.Fail("crash", "%s", out)
				return
			}
		}
		for i, got := range results {
			r.Log("%s -> %s", p.form(p.Ops[i]), got)
		}
		if len(results) != len(p.Ops) {
			r.Fail("lost", "%d operations gave %d results", len(p.Ops), len(results))
			return
		}
		inter := ""
		for i, o := range p.Ops {
			got := results[i]
			if strings.HasPrefix(got, "crash") {
				r.Fail("crash", "%s: %s", p.form(o), got)
				return
			}
			if got == "no end" {
				r.Fail("no-end", "%s does not end", p.form(o))
				return
			}
			s := o.S
			if o.Std {
				if stdin < 0 {
					continue
				}
				s = stdin
				o.Eof = ""
			}
			st := p.Streams[s]
			if dead[s] {
				// after an error or in text that is not modelled: the data
				// may not be compared, but its end must still be an end
				continue
			}
			ref := refs[s]
			from := ref.pos
			want := ref.op(o.Op)
			if want.kind == "unspec" {
				dead[s] = true
				r.Probe("unspecified text")
				continue
			}
			if st.Err > 0 && st.Kind != "string" && st.Err-1 <= len(st.text()) {
				// runes delivered before the failure
				cut := st.text()[:st.Err-1]
				for !utf8.ValidString(cut) {
					cut = cut[:len(cut)-1] // it ends inside of a character
				}
				inside := st.Err - 1 - len(cut)
				ok := utf8.RuneCountInString(cut)
				atEnd := want.kind == "eof" || want.kind == "short"
				if ok < want.look || (atEnd && ok <= len(ref.text)) {
					must := ok < want.need || (atEnd && ok <= len(ref.text))
					isErr := strings.HasPrefix(got, "error ") && got != "error eof"
					if must && got == "value #\\fffd" && o.Op == "read-char" && from >= ok && half[s] < inside {
						// the bytes before the failure are the beginning of a
						// character; each byte may be delivered as U+FFFD, once
						half[s]++
						r.Probe("error inside a character")
						continue
					}
					if must && !isErr {
						r.Fail("disguised", "%s meets a read error after %d characters (it starts at %d) but gives %s", p.form(o), ok, from, got)
						return
					}
					if isErr {
						r.Probe("error met by " + o.Op)
						dead[s] = true
						continue
					}
					if got == "value "+want.val {
						// the error, if it was met by looking ahead, is pending
						continue
					}
					r.Fail("disguised", "%s next to a read error gives %s instead of %s", p.form(o), got, want.val)
					return
				}
			}
			switch want.kind {
			case "val":
				if got != "value "+want.val {
					class := "wrong-value"
					if got == "error eof" || got == eofWant(o) {
						class = "false-end"
					}
					r.Fail(class, "%s at character %d of stream %d (%s) gives %s instead of %s", p.form(o), from, s, st.Kind, got, want.val)
					return
				}
				r.Probe(o.Op + " from " + st.Kind)
			case "eof":
				r.Probe("end of input met by " + o.Op)
				if got != eofWant(o) {
					r.Fail("wrong-end", "%s at the end of stream %d (%s) gives %s instead of %s", p.form(o), s, st.Kind, got, eofWant(o))
					return
				}
			case "short":
				r.Probe("input cut inside a datum")
				if !strings.HasPrefix(got, "error ") || got == "error eof" {
					r.Fail("cut-datum", "%s meets the end of the input inside a datum (at character %d of %q) but gives %s", p.form(o), from, clip(st.text(), 200), got)
					return
				}
			}
			inter += got
		}
		r.Key = hashOf(p.Streams, p.Ops, p.Chunks)
		r.Inter = hashOf(inter, p.Chunks)
	}
}

func readShrink(p *ReadPlan) []*ReadPlan {
	var out []*ReadPlan
	for i := len(p.Ops) - 1; i >= 0; i-- {
		q := *p
		q.Ops = append(append([]ROp{}, p.Ops[:i]...), p.Ops[i+1:]...)
		out = append(out, &q)
	}
	with := func(i int, f func(s *RStream)) {
		q := *p
		q.Streams = append([]RStream{}, p.Streams...)
		f(&q.Streams[i])
		out = append(out, &q)
	}
	for i, s := range p.Streams {
		if i == len(p.Streams)-1 && i > 0 {
			used := false
			for _, o := range p.Ops {
				used = used || o.S == i
			}
			if !used {
				q := *p
				q.Streams = p.Streams[:i]
				out = append(out, &q)
			}
		}
		if s.Err > 0 {
			if s.Why != "" {
				with(i, func(s *RStream) { s.Why = "" })
			}
			with(i, func(s *RStream) { s.Err = 0 })
			with(i, func(s *RStream) { s.Keep = false })
		}
		if s.Kind != "file" {
			with(i, func(s *RStream) { s.Kind = "file" })
		}
		if s.Cut >= 0 {
			with(i, func(s *RStream) { s.Text = s.text(); s.Cut = -1 })
		}
		n := len(s.Text)
		for _, k := range []int{n / 2, n / 4, n / 8, 8, 4, 2, 1} {
			if k == 0 || k > n {
				continue
			}
			for at := 0; at+k <= n; at += k {
				t := s.Text[:at] + s.Text[at+k:]
				if !utf8.ValidString(t) {
					continue
				}
				with(i, func(s *RStream) {
					s.Text = t
					if s.Err > 0 && s.Err-1 > at {
						s.Err -= k
						if s.Err < 1 {
							s.Err = 1
						}
					}
				})
				if len(out) > 3000 {
					return out
				}
			}
		}
	}
	if len(p.Chunks) > 1 || p.Chunks[0] != 4096 {
		q := *p
		q.Chunks = []int{4096}
		out = append(out, &q)
		q2 := *p
		q2.Chunks = []int{1}
		out = append(out, &q2)
	}
	if !p.Split {
		q := *p
		q.Split = true
		out = append(out, &q)
	}
	return out
}

func readExplain(p *ReadPlan) string {
	var b strings.Builder
	pre, around := p.opens()
	for i, s := range p.Streams {
		fmt.Fprintf(&b, "; stream %d (%s): %q", i, s.Kind, clip(s.text(), 400))
		if s.Err > 0 {
			fmt.Fprintf(&b, ", a read fails at byte %d (again: %v) %s", s.Err-1, s.Keep, s.Why)
		}
		b.WriteString("\n")
	}
	fmt.Fprintf(&b, "; reads return %v bytes\n%s\n", p.Chunks, pre)
	var ops []string
	for _, o := range p.Ops {
		ops = append(ops, p.form(o))
	}
	b.WriteString(strings.Replace(around, "@", strings.Join(ops, " "), 1) + "\n")
	return b.String()
}

func init() {
	register(Check{ID: "C08", Quick: 40000, Thor: 1500000,
		Rule: "a series of read operations on one to three streams whose text arrives in chunks chosen by the seed, with read errors at chosen offsets; distinct by texts, operations and chunks",
		Real: realAll, Stub: stubAll},
		readGen(false), readExec(false), readShrink, readExplain)
	register(Check{ID: "C09", Quick: 40000, Thor: 1500000,
		Rule: "a series of read operations that goes on beyond the end of one to three streams whose texts are cut at chosen bytes, with every form of the end-of-file arguments; distinct by texts, operations and chunks",
		Real: realAll, Stub: stubAll},
		readGen(true), readExec(true), readShrink, readExplain)
}
