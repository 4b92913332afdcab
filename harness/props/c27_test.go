package props

import (
	"bytes"
	stdxml "encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/sttp/goapi/sttp/xml"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

type xAttr struct{ Name, Value string }

// xElem is a generated element: text pieces surround its children.
type xElem struct {
	Name   string
	Prefix int // 0 none, 1 p, 2 q
	Decl   int // namespace declarations written on this element: bit 0 p, bit 1 q
	Attrs  []xAttr
	Text   []string // one more than Kids
	Style  int
	Kids   []xElem
}

type xPred struct {
	Attr   bool
	Name   string // or *
	Has    bool   // compares
	Value  string
	Spaces bool
	Bare   bool // without quotes
}

type xStep struct {
	Name  string
	Preds []xPred
}

type c27Case struct {
	Head    string
	Root    xElem
	Steps   []xStep
	Via     int // 0 document, 1 document with //root, 2 node, 3 list of nodes
	Garbage string
	Reload  bool // another document was loaded before
	File    bool // loaded from a file
	Damage  []mut
	Scale   c27Scale
}

// c27Scale enlarges a document.
type c27Scale struct {
	Depth, Kids, Attrs, Text int
}

func (e xElem) clone() xElem {
	e.Attrs = append([]xAttr(nil), e.Attrs...)
	e.Kids = append([]xElem(nil), e.Kids...)
	for i := range e.Kids {
		e.Kids[i] = e.Kids[i].clone()
	}
	return e
}

func (c c27Case) scaled() c27Case {
	k := c.Scale
	if k == (c27Scale{}) {
		return c
	}
	root := &c.Root
	root.Kids, root.Text = append([]xElem(nil), root.Kids...), append([]string(nil), root.Text...)
	add := func(e xElem) {
		root.Kids = append(root.Kids, e)
		root.Text = append(root.Text, "")
	}
	for n, i := len(root.Kids), 0; i < k.Kids; i++ {
		e := root.Kids[i%n].clone()
		e.Attrs = append(e.Attrs, xAttr{"n", fmt.Sprint(i)})
		add(e)
	}
	if k.Attrs > 0 || k.Text > 0 {
		e := xElem{Name: "many", Text: []string{strings.Repeat("0123456789", k.Text/10)}}
		for i := 0; i < k.Attrs; i++ {
			e.Attrs = append(e.Attrs, xAttr{fmt.Sprintf("a%d", i), fmt.Sprint(i)})
		}
		add(e)
	}
	if k.Depth > 0 {
		e := xElem{Name: "leaf", Text: []string{"end"}}
		for i := 0; i < k.Depth; i++ {
			e = xElem{Name: xNames[i%len(xNames)], Kids: []xElem{e}, Text: []string{"", ""}}
		}
		add(e)
	}
	return c
}

var xPrefixes = []string{"", "p", "q"}

func xURI(p int) string {
	if p == 0 {
		return ""
	}
	return "urn:" + xPrefixes[p]
}

func (e xElem) qname() string {
	if e.Prefix == 0 {
		return e.Name
	}
	return xPrefixes[e.Prefix] + ":" + e.Name
}

// inner writes the content; whole writes the element.
func (e xElem) inner() string {
	var b strings.Builder
	for i, t := range e.Text {
		b.WriteString(escapeXML(t, e.Style+i))
		if e.Style%7 == 3 && i == 0 {
			b.WriteString("<!-- note <x/> -->")
		}
		if e.Style%11 == 5 && i == 0 {
			b.WriteString("<?pi x?>")
		}
		if i < len(e.Kids) {
			b.WriteString(e.Kids[i].whole())
		}
	}
	return b.String()
}

func (e xElem) whole() string {
	var b strings.Builder
	b.WriteString("<" + e.qname())
	for p := 1; p < 3; p++ {
		if e.Decl&p != 0 {
			fmt.Fprintf(&b, ` xmlns:%s="%s"`, xPrefixes[p], xURI(p))
		}
	}
	for _, a := range e.Attrs {
		// Attribute values are normalised, so white space is written as references
		v := strings.NewReplacer("\n", "&#xA;", "\t", "&#x9;", "\r", "&#xD;").Replace(escapeXML(a.Value, 0))
		fmt.Fprintf(&b, ` %s="%s"`, a.Name, v)
	}
	in := e.inner()
	if in == "" && e.Style%2 == 0 {
		b.WriteString("/>")
	} else {
		b.WriteString(">" + in + "</" + e.qname() + ">")
	}
	return b.String()
}

func (e xElem) text() string { return strings.Join(e.Text, "") }

func (e xElem) depth() int {
	d := 0
	for _, k := range e.Kids {
		d = max(d, k.depth())
	}
	return d + 1
}

// compare walks the tree and the model together; index collects the nodes.
func (e *xElem) compare(n *xml.XmlNode, parent *xml.XmlNode, level int, path string, doc *xml.XmlDocument, index map[*xElem]*xml.XmlNode) error {
	index[e] = n
	path += "/" + e.Name
	bad := func(what string, got, want any) error {
		return fmt.Errorf("%s: %s is %q, want %q", path, what, fmt.Sprint(got), fmt.Sprint(want))
	}
	if n.Name != e.Name {
		return bad("name", n.Name, e.Name)
	}
	if n.Namespace != xURI(e.Prefix) {
		return bad("namespace", n.Namespace, xURI(e.Prefix))
	}
	if n.Prefix() != xPrefixes[e.Prefix] {
		return bad("prefix", n.Prefix(), xPrefixes[e.Prefix])
	}
	if n.Level != level {
		return bad("level", n.Level, level)
	}
	if n.Parent != parent {
		return fmt.Errorf("%s: wrong parent", path)
	}
	if n.Owner != doc {
		return fmt.Errorf("%s: wrong owner", path)
	}
	if n.Path() != path {
		return bad("path", n.Path(), path)
	}
	if n.Value() != e.inner() {
		return bad("value", n.Value(), e.inner())
	}
	nattr := len(e.Attrs)
	for p := 1; p < 3; p++ {
		if e.Decl&p != 0 {
			nattr++
		}
	}
	if len(n.Attributes) != nattr {
		return bad("attributes", n.Attributes, e.Attrs)
	}
	for _, a := range e.Attrs {
		if v, ok := n.Attributes[a.Name]; !ok || v != a.Value {
			return bad("attribute "+a.Name, v, a.Value)
		}
	}
	if n.HasChildNodes() != (len(e.Kids) > 0) || len(n.ChildNodes) != len(e.Kids) || len(n.GetChildNodes()) != len(e.Kids) {
		return bad("child count", len(n.ChildNodes), len(e.Kids))
	}
	if len(e.Kids) == 0 {
		if n.FirstChild() != nil || n.LastChild() != nil {
			return fmt.Errorf("%s: first or last child of an empty node", path)
		}
	} else if n.FirstChild() != n.GetChildNodes()[0] || n.LastChild() != n.GetChildNodes()[len(e.Kids)-1] {
		return fmt.Errorf("%s: wrong first or last child", path)
	}
	byName := map[string][]*xml.XmlNode{}
	for i := range e.Kids {
		k := n.GetChildNodes()[i]
		var prev, next *xml.XmlNode
		if i > 0 {
			prev = n.GetChildNodes()[i-1]
		}
		if i < len(e.Kids)-1 {
			next = n.GetChildNodes()[i+1]
		}
		if k.Previous != prev || k.Next != next {
			return fmt.Errorf("%s: child %d has wrong siblings", path, i)
		}
		if err := e.Kids[i].compare(k, n, level+1, path, doc, index); err != nil {
			return err
		}
		byName[k.Name] = append(byName[k.Name], k)
	}
	if len(n.Items) != len(byName) || len(n.Item) != len(byName) {
		return bad("items", len(n.Items), len(byName))
	}
	for name, list := range byName {
		if n.Item[name] != list[0] || len(n.Items[name]) != len(list) {
			return fmt.Errorf("%s: wrong items %s", path, name)
		}
		for i := range list {
			if n.Items[name][i] != list[i] {
				return fmt.Errorf("%s: wrong order of items %s", path, name)
			}
		}
	}
	return nil
}

func (p xPred) matches(e *xElem) bool {
	if p.Attr {
		for _, a := range e.Attrs {
			if (p.Name == "*" || p.Name == a.Name) && (!p.Has || a.Value == p.Value) {
				return true
			}
		}
		return false
	}
	for i := range e.Kids {
		k := &e.Kids[i]
		if p.Name != "*" && p.Name != k.Name {
			continue
		}
		if !p.Has || len(k.Kids) == 0 && k.text() == p.Value || len(k.Kids) > 0 && k.inner() == p.Value {
			return true
		}
	}
	return false
}

func (p xPred) String() string {
	s := p.Name
	if p.Attr {
		s = "@" + s
	}
	sp := ""
	if p.Spaces {
		sp = " "
	}
	if p.Has {
		v := "'" + p.Value + "'"
		if p.Bare && p.Value != "" && !strings.ContainsAny(p.Value, "[]/'= \t\r\n") {
			v = p.Value
		}
		s += sp + "=" + sp + v
	}
	return "[" + sp + s + sp + "]"
}

func selectModel(from []*xElem, steps []xStep) []*xElem {
	for _, s := range steps {
		var out []*xElem
		for _, e := range from {
			for i := range e.Kids {
				k := &e.Kids[i]
				ok := s.Name == "*" || s.Name == k.Name
				for _, p := range s.Preds {
					ok = ok && p.matches(k)
				}
				if ok {
					out = append(out, k)
				}
			}
		}
		from = out
	}
	return from
}

// wellFormed tells whether text starts with a well-formed root element.
func wellFormed(text []byte) bool {
	d := stdxml.NewDecoder(bytes.NewReader(text))
	for depth := 0; ; {
		tok, err := d.Token()
		if err != nil {
			return false
		}
		switch tok.(type) {
		case stdxml.StartElement:
			depth++
		case stdxml.EndElement:
			if depth--; depth == 0 {
				return true
			}
		}
	}
}

// loadFile loads a document from a file; a file that does not exist is an error.
func loadFile(doc *xml.XmlDocument, text []byte) error {
	dir, err := os.MkdirTemp("", "c27-")
	if err != nil {
		return vk.Broken("%v", err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "doc.xml")
	if doc.LoadXmlFromFile(name) == nil {
		return fmt.Errorf("a file that does not exist is loaded")
	}
	if err := os.WriteFile(name, text, 0o600); err != nil {
		return vk.Broken("%v", err)
	}
	return doc.LoadXmlFromFile(name)
}

func execC27(c c27Case, o *vk.Obs) error {
	c = c.scaled()
	text := []byte(c.Head + c.Root.whole() + "\n")
	var doc xml.XmlDocument
	if c.Reload {
		if err := doc.LoadXml([]byte(`<z a="1"><y><x><w><v><u/></v></w></x></y><y/></z>`)); err != nil {
			return fmt.Errorf("valid document rejected: %v", err)
		}
	}
	if len(c.Damage) > 0 {
		o.Label("damaged")
		for _, m := range c.Damage {
			text = m.apply(text)
		}
		if doc.LoadXml(text) == nil {
			o.Label("damaged but parsed")
			if !wellFormed(text) {
				return fmt.Errorf("malformed document accepted\n%s", text)
			}
		}
		doc.SelectNodes(c.Garbage)
		return nil
	}
	var err error
	if c.File {
		err = loadFile(&doc, text)
	} else {
		err = doc.LoadXml(text)
	}
	if err != nil {
		return fmt.Errorf("valid document rejected: %w\n%s", err, text)
	}
	index := map[*xElem]*xml.XmlNode{}
	if err := c.Root.compare(&doc.Root, nil, 0, "/", &doc, index); err != nil {
		return fmt.Errorf("%v\n%s", err, text)
	}
	if doc.MaxDepth() != c.Root.depth() {
		return fmt.Errorf("depth %d, want %d", doc.MaxDepth(), c.Root.depth())
	}
	// Text that no path denotes must be survived and select nothing foreign
	known := map[*xml.XmlNode]bool{}
	for _, n := range index {
		known[n] = true
	}
	for _, p := range []string{"%s]", "%s[@id]x", "%s[1]x[2]", "%s[", "%s[@id", "%s[]", "%s][", "%s[@none=']", "%s[none=']", "%s[none=' ]"} {
		if got := doc.SelectNodes(fmt.Sprintf(p, c.Root.Kids[0].Name)); len(got) > 0 {
			return fmt.Errorf("%q selects %d nodes\n%s", fmt.Sprintf(p, c.Root.Kids[0].Name), len(got), text)
		}
	}
	for _, n := range doc.SelectNodes(c.Garbage) {
		if !known[n] {
			return fmt.Errorf("%q selects a node that is not in the document", c.Garbage)
		}
	}
	if len(c.Steps) == 0 {
		return nil
	}
	var path []string
	preds := 0
	for _, s := range c.Steps {
		step := s.Name
		for _, p := range s.Preds {
			step += p.String()
			preds++
		}
		path = append(path, step)
	}
	query := strings.Join(path, "/")
	var got []*xml.XmlNode
	var want []*xElem
	switch c.Via {
	case 0:
		got, want = doc.SelectNodes(query), selectModel([]*xElem{&c.Root}, c.Steps)
	case 1:
		got, want = doc.SelectNodes("//"+c.Root.Name+"/"+query), selectModel([]*xElem{&c.Root}, c.Steps)
	case 2:
		got, want = doc.Root.SelectNodes(query), selectModel([]*xElem{&c.Root}, c.Steps)
	case 3:
		var from []*xElem
		for i := range c.Root.Kids {
			from = append(from, &c.Root.Kids[i])
		}
		got, want = xml.SelectNodes(doc.Root.GetChildNodes(), query), selectModel(from, c.Steps)
	}
	if len(got) != len(want) {
		return fmt.Errorf("%q selects %d nodes, want %d\n%s", query, len(got), len(want), text)
	}
	for i := range got {
		if got[i] != index[want[i]] {
			return fmt.Errorf("%q: node %d is %s, want %s\n%s", query, i, got[i].Path(), index[want[i]].Path(), text)
		}
	}
	if len(want) > 0 {
		o.Label("selects nodes")
		if preds > 0 || len(c.Steps) > 1 {
			o.NonTrivial()
		}
	}
	return nil
}

var xNames = []string{"a", "b", "c", "item", "Ü1"}
var xValues = []string{"", "1", "x", "a b", "x/y", "k=v", "[0]", "é<&>\"", "]", "a=1/b[2]"}

func genElem(t *rapid.T, depth int, root bool) xElem {
	e := xElem{Name: rapid.SampledFrom(xNames).Draw(t, "name"), Prefix: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "prefix"), Style: rapid.IntRange(0, 154).Draw(t, "style")}
	if root {
		e.Decl = 3
	}
	for _, n := range []string{"id", "k", "x"} {
		if rapid.IntRange(0, 2).Draw(t, "attr") == 0 {
			e.Attrs = append(e.Attrs, xAttr{n, rapid.OneOf(rapid.SampledFrom(xValues), rapid.SampledFrom([]string{"urn:p", "urn:q"})).Draw(t, "value")})
		}
	}
	kids := 0
	if depth > 0 {
		kids = rapid.SampledFrom([]int{0, 1, 2, 3, 4}).Draw(t, "kids")
	}
	if root {
		kids++
	}
	for i := 0; i < kids; i++ {
		e.Kids = append(e.Kids, genElem(t, depth-1, false))
	}
	for i := 0; i <= kids; i++ {
		s := ""
		if kids == 0 || rapid.IntRange(0, 4).Draw(t, "mixed") == 0 {
			s = rapid.SampledFrom(xValues).Draw(t, "text")
		}
		e.Text = append(e.Text, s)
	}
	return e
}

// genSteps draws a path that often matches: names and values come from the tree.
func genSteps(t *rapid.T, from []*xElem) []xStep {
	var steps []xStep
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "steps"); i < n; i++ {
		var kids []*xElem
		for _, e := range from {
			for k := range e.Kids {
				kids = append(kids, &e.Kids[k])
			}
		}
		s := xStep{Name: rapid.SampledFrom(append([]string{"*", "none"}, xNames...)).Draw(t, "step")}
		var target *xElem
		if len(kids) > 0 && rapid.IntRange(0, 9).Draw(t, "hit") > 0 {
			target = rapid.SampledFrom(kids).Draw(t, "target")
			if s.Name != "*" {
				s.Name = target.Name
			}
		}
		for k, m := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "preds"); k < m; k++ {
			p := xPred{Attr: rapid.Bool().Draw(t, "onattr"), Has: rapid.IntRange(0, 2).Draw(t, "has") > 0, Spaces: rapid.IntRange(0, 3).Draw(t, "spaces") == 0, Bare: rapid.IntRange(0, 3).Draw(t, "bare") == 0,
				Name: rapid.SampledFrom([]string{"*", "id", "k", "a", "b"}).Draw(t, "predname"), Value: rapid.SampledFrom(xValues).Draw(t, "predvalue")}
			if target != nil && rapid.IntRange(0, 9).Draw(t, "predhit") > 0 {
				if p.Attr && len(target.Attrs) > 0 {
					a := rapid.SampledFrom(target.Attrs).Draw(t, "predattr")
					p.Value = a.Value
					if p.Name != "*" {
						p.Name = a.Name
					}
				} else if !p.Attr && len(target.Kids) > 0 {
					k := rapid.SampledFrom(target.Kids).Draw(t, "predkid")
					if p.Name != "*" {
						p.Name = k.Name
					}
					p.Value = k.text()
				}
			}
			p.Value = strings.ReplaceAll(p.Value, "'", "")
			s.Preds = append(s.Preds, p)
		}
		steps = append(steps, s)
		from = selectModel(from, steps[i:])
		if len(from) == 0 {
			break
		}
	}
	return steps
}

func genC27(t *rapid.T) c27Case {
	c := c27Case{Head: rapid.SampledFrom([]string{"", "", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n", "<!-- c -->"}).Draw(t, "head"),
		Root: genElem(t, 3, true), Via: rapid.IntRange(0, 3).Draw(t, "via"), Reload: rapid.IntRange(0, 3).Draw(t, "reload") == 0, File: rapid.IntRange(0, 19).Draw(t, "file") == 0}
	from := []*xElem{&c.Root}
	if c.Via == 3 {
		from = nil
		for i := range c.Root.Kids {
			from = append(from, &c.Root.Kids[i])
		}
	}
	c.Steps = genSteps(t, from)
	c.Garbage = rapid.OneOf(rapid.StringOfN(rapid.RuneFrom([]rune("ab*/[]@='\" .()é")), 0, 12, -1), rapid.SampledFrom([]string{"[", "]", "a[", "a[]", "//", "a//b", "a[@]", "a[@=]", "a[@id=']", "[@id]", "a[b]c", "a[[b]]"})).Draw(t, "garbage")
	if rapid.IntRange(0, 11).Draw(t, "damage") == 0 {
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "muts"); i < n; i++ {
			c.Damage = append(c.Damage, genMut(t))
		}
	}
	// Nested declarations count as attributes, so only paths without @* meet them
	star := false
	for _, s := range c.Steps {
		for _, p := range s.Preds {
			star = star || p.Attr && p.Name == "*"
		}
	}
	if !star && rapid.IntRange(0, 3).Draw(t, "nested") == 0 {
		c.Root.redeclare(rapid.IntRange(0, 3).Draw(t, "decl"))
	}
	return c
}

func TestC27(t *testing.T) {
	vk.Run(t, vk.Spec[c27Case]{
		ID: "C27", Name: "xml", Rule: "element trees in equivalent spellings and paths drawn along them; non-trivial: a path of two steps or with a predicate selects a node",
		Quick: 15000, Deep: 800000,
		Gen:  genC27,
		Exec: execC27,
	})
	vk.Run(t, vk.Spec[c27Case]{
		ID: "C27", Name: "large", Rule: "as above, with up to 3000 elements in one, 300 levels, 100 attributes and texts of 100000 characters; non-trivial: a path of two steps or with a predicate selects a node",
		Quick: 40, Deep: 1000,
		Gen: func(t *rapid.T) c27Case {
			c := genC27(t)
			c.Damage = nil
			c.Scale = rapid.SampledFrom([]c27Scale{{Depth: 20}, {Depth: 300}, {Kids: 300}, {Kids: 3000}, {Attrs: 100}, {Text: 5000}, {Text: 100000}, {Depth: 40, Kids: 40, Attrs: 40, Text: 40}}).Draw(t, "scale")
			switch k := c.Scale; rapid.IntRange(0, 2).Draw(t, "path") {
			case 0:
				if k.Depth > 0 {
					c.Steps, c.Via = nil, 0
					for i := k.Depth - 1; i >= 0; i-- {
						c.Steps = append(c.Steps, xStep{Name: xNames[i%len(xNames)]})
					}
					c.Steps = append(c.Steps, xStep{Name: "leaf"})
				}
			case 1:
				if k.Kids > 0 {
					c.Steps, c.Via = []xStep{{Name: "*", Preds: []xPred{{Attr: true, Name: "n", Has: true, Value: fmt.Sprint(rapid.IntRange(0, k.Kids-1).Draw(t, "kid"))}}}}, 0
				} else if k.Attrs > 0 {
					a := rapid.IntRange(0, k.Attrs-1).Draw(t, "attribute")
					c.Steps, c.Via = []xStep{{Name: "many", Preds: []xPred{{Attr: true, Name: fmt.Sprintf("a%d", a), Has: true, Value: fmt.Sprint(a)}}}}, 0
				}
			}
			return c
		},
		Exec: execC27,
	})
}

// redeclare moves the declarations of some prefixes to the elements that use them.
func (e *xElem) redeclare(mask int) {
	e.Decl &^= mask
	if e.Prefix > 0 {
		e.Decl |= e.Prefix & mask
	}
	for i := range e.Kids {
		e.Kids[i].redeclare(mask)
	}
}
