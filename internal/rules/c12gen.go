package rules

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"text/template"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
	"scverify/internal/load"
)

// The generators are interpreted with the descriptors of the API, which are known from its generated code. What they
// produce is compared with the checked in files. Files that aren't the same have to be equivalent: the rules for
// routers and wrappers are applied to the produced files as well.

const protogenNS = "google.golang.org/protobuf/compiler/protogen"

// genMethodDesc is the descriptor of a method, as templates use it.
type genMethodDesc struct{ m *rmethod }

func (d genMethodDesc) IsStreamingServer() bool { return d.m.streaming }
func (d genMethodDesc) IsStreamingClient() bool { return false }
func (d genMethodDesc) Name() string            { return d.m.name }

// genFile is a produced file.
type genFile struct {
	name, path string // path of its package
	imports    map[string]string
	text       string
}

// protoFile is a file of the API.
type protoFile struct {
	prefix string // of generated files
	path   string // import path
	svcs   []*rservice
}

func (c *Ctx) protoFiles() []*protoFile {
	by := map[string]*protoFile{}
	for _, s := range c.grpcServices() {
		obj := s.pkg.Scope().Lookup(s.name + "_ServiceDesc")
		base := strings.TrimSuffix(filepath.Base(c.P.Prog.Fset.Position(obj.Pos()).Filename), "_grpc.pb.go")
		prefix := s.pkg.Path() + "/" + base
		f := by[prefix]
		if f == nil {
			f = &protoFile{prefix: prefix, path: s.pkg.Path()}
			by[prefix] = f
		}
		f.svcs = append(f.svcs, s)
	}
	var r []*protoFile
	for _, k := range sortedKeys(by) {
		f := by[k]
		sort.SliceStable(f.svcs, func(i, j int) bool {
			return f.svcs[i].server.Obj().Pos() < f.svcs[j].server.Obj().Pos()
		})
		for _, s := range f.svcs {
			it := s.server
			pos := map[string]token.Pos{}
			st := it.Underlying().(*types.Interface)
			for i := 0; i < st.NumMethods(); i++ {
				pos[st.Method(i).Name()] = st.Method(i).Pos()
			}
			sort.SliceStable(s.methods, func(i, j int) bool { return pos[s.methods[i].name] < pos[s.methods[j].name] })
		}
		r = append(r, f)
	}
	return r
}

// embeds finds the variables of a package set by go:embed.
func (c *Ctx) embeds(pkgPath string) map[string]string {
	r := map[string]string{}
	pkg := c.P.ByPath[pkgPath]
	if pkg == nil {
		panic(missing{pkgPath})
	}
	for _, f := range pkg.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for _, cg := range []*ast.CommentGroup{g.Doc, v.Doc} {
					if cg == nil || len(v.Names) != 1 {
						continue
					}
					for _, cm := range cg.List {
						if name, ok := strings.CutPrefix(cm.Text, "//go:embed "); ok {
							dir := filepath.Dir(c.P.Prog.Fset.Position(f.Pos()).Filename)
							b, err := os.ReadFile(filepath.Join(dir, strings.TrimSpace(name)))
							if err == nil {
								r[v.Names[0].Name] = string(b)
							}
						}
					}
				}
			}
		}
	}
	return r
}

// goValue turns a known value into one for templates.
func (s *Scn) goValue(v Val, descs map[string]*rmethod, depth int) any {
	if v == nil || depth > 8 {
		return nil
	}
	v = s.P.Resolve(v)
	if absint.IsNilConst(v) {
		return nil
	}
	if d, ok := descs[absint.Key(absint.Unwrap(v))]; ok {
		return genMethodDesc{d}
	}
	if x, ok := absint.StringConst(v); ok {
		return x
	}
	if x, ok := absint.BoolConst(v); ok {
		return x
	}
	if x, ok := absint.IntConst(v); ok {
		return x
	}
	switch x := v.(type) {
	case absint.IfaceV:
		return s.goValue(x.V, descs, depth)
	case absint.Ptr:
		return s.goValue(x.C.Load(), descs, depth)
	case absint.SliceV:
		l := []any{}
		for i := x.Lo; i < x.Hi; i++ {
			l = append(l, s.goValue(x.Arr.Cells[i].Load(), descs, depth+1))
		}
		return l
	case *absint.StructV:
		m := map[string]any{}
		st, ok := x.T.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Embedded() {
				if e, ok := s.goValue(x.Field(i).Load(), descs, depth+1).(map[string]any); ok {
					for k, v := range e {
						m[k] = v
					}
				}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			m[st.Field(i).Name()] = s.goValue(x.Field(i).Load(), descs, depth+1)
		}
		return m
	}
	return nil
}

// generate interprets a generator.
func (c *Ctx) generate(rule, cmd string) (files []*genFile) {
	pkgPath := load.Module + "/cmd/" + cmd
	var mu sync.Mutex
	cfg := c12Cfg()
	cfg.MaxSteps = 20000000
	cfg.MaxLoop = 10000
	cfg.MaxVisits = 100000
	embeds := c.embeds(pkgPath)
	main := c.Fn("cmd/"+cmd, "main")
	protos := c.protoFiles()
	str := func(call *absint.Call, i int) string {
		x, ok := absint.StringConst(call.P.Resolve(call.Args[i]))
		if !ok {
			call.P.Stuck("%s of an unknown string %s", call.Name, absint.Key(call.Args[i]))
		}
		return x
	}
	cfg.Hook = func(call *absint.Call) (Val, bool) {
		s, _ := call.P.Data["scn"].(*Scn)
		if s == nil {
			return nil, false
		}
		recv := call.Recv
		if recv == nil && len(call.Args) > 0 {
			recv = call.Args[0]
		}
		descs := call.P.Data["descs"].(map[string]*rmethod)
		method := call.Name[strings.LastIndex(call.Name, ".")+1:]
		if recv != nil {
			if d, ok := descs[absint.Key(absint.Unwrap(recv))]; ok {
				switch method {
				case "IsStreamingServer":
					return absint.MkBool(d.streaming), true
				case "IsStreamingClient":
					return absint.MkBool(false), true
				}
			}
		}
		switch call.Name {
		case "path/filepath.Base", "path.Base":
			return absint.MkString(path.Base(str(call, 0))), true
		case "path/filepath.Dir", "path.Dir":
			return absint.MkString(path.Dir(str(call, 0))), true
		case "path/filepath.Join", "path.Join":
			var l []string
			if sl, ok := s.P.SliceOf(call.Args[0]); ok {
				for i := sl.Lo; i < sl.Hi; i++ {
					x, _ := absint.StringConst(s.P.Resolve(sl.Arr.Cells[i].Load()))
					l = append(l, x)
				}
			}
			return absint.MkString(path.Join(l...)), true
		case "text/template.New", "(*text/template.Template).New":
			v := s.opaque("template", resType(call))
			return v, true
		case "fmt.Sprintf":
			sl, ok := s.P.SliceOf(call.Args[1])
			var l []any
			for i := sl.Lo; ok && i < sl.Hi; i++ {
				x := s.goValue(sl.Arr.Cells[i].Load(), descs, 0)
				if _, known := x.(string); !known {
					return nil, false
				}
				l = append(l, x)
			}
			return absint.MkString(fmt.Sprintf(str(call, 0), l...)), true
		case "text/template.Must":
			return call.Args[0], true
		case "(*text/template.Template).Parse":
			call.P.Data["template:"+absint.Key(s.P.Resolve(call.Args[0]))] = str(call, 1)
			return absint.TupleV{call.Args[0], absint.MkNil(errType)}, true
		case "(*text/template.Template).Execute", "(*text/template.Template).ExecuteTemplate":
			text, ok := call.P.Data["template:"+absint.Key(s.P.Resolve(call.Args[0]))].(string)
			out, ok2 := call.P.Data["file:"+absint.Key(absint.Unwrap(s.P.Resolve(call.Args[1])))].(*genFile)
			if !ok || !ok2 {
				call.P.Stuck("template or file that isn't known")
			}
			t, err := template.New("t").Option("missingkey=error").Parse(text)
			if err != nil {
				s.Stop("%s: the template can't be parsed: %v", cmd, err)
			}
			var b bytes.Buffer
			if err := t.Execute(&b, s.goValue(call.Args[len(call.Args)-1], descs, 0)); err != nil {
				s.Stop("%s: the template fails for %s: %v", cmd, out.name, err)
			}
			out.text += b.String()
			return absint.MkNil(errType), true
		case "(" + protogenNS + ".Options).Run":
			plugin := s.genPlugin(c, protos, descs)
			r := s.callV(call.Args[len(call.Args)-1], plugin)
			if len(r) == 1 && !absint.IsNilConst(s.P.Resolve(r[0])) {
				s.Stop("%s fails: %s", cmd, s.Code(r[0]))
			}
			return absint.TupleV{}, true
		case "(*" + protogenNS + ".Plugin).NewGeneratedFile":
			f := &genFile{name: str(call, 1), path: str(call, 2), imports: map[string]string{}}
			v := s.opaque("file", resType(call))
			call.P.Data["file:"+absint.Key(v)] = f
			l := call.P.Data["files"].(*[]*genFile)
			*l = append(*l, f)
			return v, true
		case "(*" + protogenNS + ".GeneratedFile).P":
			f, ok := call.P.Data["file:"+absint.Key(s.P.Resolve(call.Args[0]))].(*genFile)
			sl, ok2 := s.P.SliceOf(call.Args[1])
			if !ok || !ok2 {
				call.P.Stuck("printing to an unknown file")
			}
			for i := sl.Lo; i < sl.Hi; i++ {
				f.text += fmt.Sprint(s.goValue(sl.Arr.Cells[i].Load(), descs, 0))
			}
			f.text += "\n"
			return absint.TupleV{}, true
		case "(*" + protogenNS + ".GeneratedFile).QualifiedGoIdent":
			f, ok := call.P.Data["file:"+absint.Key(s.P.Resolve(call.Args[0]))].(*genFile)
			id, ok2 := s.goValue(call.Args[1], descs, 0).(map[string]any)
			if !ok || !ok2 {
				call.P.Stuck("qualifying an unknown identifier")
			}
			name, _ := id["GoName"].(string)
			ip, _ := id["GoImportPath"].(string)
			if ip == f.path {
				return absint.MkString(name), true
			}
			alias := f.imports[ip]
			for n := 0; alias == ""; n++ {
				try := strings.Map(func(r rune) rune {
					if r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
						return r
					}
					return '_'
				}, path.Base(ip))
				if n > 0 {
					try += fmt.Sprint(n)
				}
				used := false
				for _, a := range f.imports {
					used = used || a == try
				}
				if !used {
					alias = try
				}
			}
			f.imports[ip] = alias
			return absint.MkString(alias + "." + name), true
		}
		return nil, false
	}
	o := c.Explore(rule, cmd, main.Pos(), cfg, func(s *Scn) {
		s.P.Data["scn"] = s
		s.P.Data["descs"] = map[string]*rmethod{}
		var out []*genFile
		s.P.Data["files"] = &out
		for name, text := range embeds {
			s.P.Global(main.Pkg.Var(name)).Set(s.P, absint.MkString(text))
		}
		s.Call(main)
		mu.Lock()
		files = out
		mu.Unlock()
	})
	if o == nil || !o.OK {
		return nil
	}
	return files
}

// genPlugin is a request to generate code for all services.
func (s *Scn) genPlugin(c *Ctx, protos []*protoFile, descs map[string]*rmethod) Val {
	typ := func(n string) types.Type { return c.ExtType(protogenNS, n) }
	list := func(t types.Type, vs []Val) Val { return s.P.MkSlice(types.NewSlice(types.NewPointer(t)), "list", vs...) }
	ident := func(name, ip string) Val {
		return s.P.Deref(s.NewMsg(typ("GoIdent"), "ident", map[string]Val{"GoName": absint.MkString(name), "GoImportPath": s.strOf(typ("GoImportPath"), ip)})).Load()
	}
	msg := func(t types.Type) Val {
		n := t.(*types.Pointer).Elem().(*types.Named)
		return s.NewMsg(typ("Message"), "message", map[string]Val{"GoIdent": ident(n.Obj().Name(), n.Obj().Pkg().Path())})
	}
	var files []Val
	for _, f := range protos {
		var svcs []Val
		for _, sv := range f.svcs {
			var ms []Val
			for _, m := range sv.methods {
				resp := m.resp
				if m.streaming {
					resp = types.NewPointer(sendParam(m.sig.Params().At(1).Type()))
				}
				d := s.opaque("desc", s.fieldType(typ("Method"), "Desc"))
				descs[absint.Key(d)] = m
				ms = append(ms, s.NewMsg(typ("Method"), "method", map[string]Val{"GoName": absint.MkString(m.name), "Desc": d, "Input": msg(m.req), "Output": msg(resp)}))
			}
			svcs = append(svcs, s.NewMsg(typ("Service"), "service", map[string]Val{"GoName": absint.MkString(sv.name), "Methods": list(typ("Method"), ms)}))
		}
		files = append(files, s.NewMsg(typ("File"), "file", map[string]Val{
			"GeneratedFilenamePrefix": absint.MkString(f.prefix), "GoImportPath": s.strOf(typ("GoImportPath"), f.path),
			"Services": list(typ("Service"), svcs), "Generate": absint.MkBool(true),
		}))
	}
	return s.NewMsg(typ("Plugin"), "plugin", map[string]Val{"Files": list(typ("File"), files)})
}

func (s *Scn) strOf(t types.Type, x string) Val {
	v := absint.MkString(x)
	v.T = t
	return v
}

func (s *Scn) fieldType(t types.Type, name string) types.Type {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	panic(missing{t.String() + "." + name})
}

// source is the file with its imports.
func (f *genFile) source() ([]byte, error) {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, f.name, f.text, parser.PackageClauseOnly)
	if err != nil {
		return nil, err
	}
	end := fset.Position(af.Name.End()).Offset
	var b bytes.Buffer
	b.WriteString(f.text[:end] + "\n\nimport (\n")
	for _, ip := range sortedKeys(f.imports) {
		fmt.Fprintf(&b, "\t%s %q\n", f.imports[ip], ip)
	}
	b.WriteString(")\n" + f.text[end:])
	return format.Source(b.Bytes())
}

// srcShape is the source without comments, unused lines and the order of imports.
func srcShape(src []byte) (string, error) {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return "", err
	}
	var parts []string
	for _, im := range af.Imports {
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		parts = append(parts, "import "+name+" "+im.Path.Value)
	}
	sort.Strings(parts)
	for _, d := range af.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		var b bytes.Buffer
		printer.Fprint(&b, token.NewFileSet(), d)
		parts = append(parts, strings.Join(strings.Fields(b.String()), " "))
	}
	return af.Name.Name + "\n" + strings.Join(parts, "\n"), nil
}

func c12Generated(c *Ctx) {
	overlay := map[string][]byte{}
	n := 0
	produced := map[string]bool{}
	// the files that say they're generated, by directory and generator
	generated := map[string][]string{}
	genPos := map[string]token.Pos{}
	for _, pkg := range c.P.Pkgs {
		for _, f := range pkg.Syntax {
			name := c.P.Prog.Fset.Position(f.Pos()).Filename
			for _, cg := range f.Comments {
				if t := cg.Text(); cg.Pos() < f.Package && strings.Contains(t, "Code generated by protoc-gen-") {
					for _, cmd := range []string{"protoc-gen-router", "protoc-gen-wrapper"} {
						if strings.Contains(t, cmd) {
							generated[filepath.Dir(name)+" "+cmd] = append(generated[filepath.Dir(name)+" "+cmd], name)
							genPos[name] = f.Package
						}
					}
				}
			}
		}
	}
	for _, cmd := range []string{"protoc-gen-router", "protoc-gen-wrapper"} {
		files := c.generate("generated", cmd)
		if files == nil {
			return // reported
		}
		names := map[string]bool{}
		for _, f := range files {
			names[filepath.Join(c.P.Dir, f.name)] = true
		}
		for _, f := range files {
			n++
			name := filepath.Join(c.P.Dir, f.name)
			if _, err := os.Stat(name); err != nil {
				// it might be called something else
				for _, other := range generated[filepath.Dir(name)+" "+cmd] {
					if !names[other] && !produced[other] {
						name = other
						break
					}
				}
			}
			produced[name] = true
			src, err := f.source()
			if err != nil {
				c.Ob("generated", f.name, token.NoPos, false, "%s produces a file that can't be parsed: %v", cmd, err)
				continue
			}
			old, err := os.ReadFile(name)
			if err != nil {
				c.Ob("generated", f.name, token.NoPos, false, "%s produces this file but it isn't there", cmd)
				continue
			}
			a, err1 := srcShape(src)
			b, err2 := srcShape(old)
			if err1 == nil && err2 == nil && a == b {
				c.Ob("generated", f.name, token.NoPos, true, "the same as what %s produces", cmd)
				continue
			}
			overlay[name] = src
		}
	}
	c.Count("generated files", n)
	for _, name := range sortedKeys(genPos) {
		if !produced[name] {
			c.Ob("generated", strings.TrimPrefix(name, c.P.Dir+"/"), genPos[name], false, "the generators don't produce this file")
		}
	}
	if len(overlay) == 0 {
		return
	}
	p, err := load.LoadOverlay(c.P.Dir, overlay)
	if err != nil {
		c.Ob("generated", "compiles", token.NoPos, false, "what the generators produce doesn't compile: %v", err)
		return
	}
	g := New(p, c.Prop, c.Tier)
	rel := func(name string) string { return strings.TrimPrefix(name, c.P.Dir+"/") }
	for _, name := range sortedKeys(overlay) {
		pkgPath := load.Module + "/" + path.Dir(rel(name))
		a, b := c.declared(c.P.ByPath[pkgPath].Types), c.declared(p.ByPath[pkgPath].Types)
		c.Ob("generated", rel(name)+" declarations", token.NoPos, a == b, "the generator produces other declarations: %s", firstDiff(a, b))
	}
	svcs := g.grpcServices()
	for i, sv := range svcs {
		rts, ws := g.routersOf(sv), g.wrappersOf(sv)
		if len(rts) != 1 || len(ws) != 1 {
			g.Ob("generated", sv.id(), token.NoPos, false, "%d routers and %d wrappers are produced", len(rts), len(ws))
			continue
		}
		fileOf := func(pos token.Pos) string { return p.Prog.Fset.Position(pos).Filename }
		if overlay[fileOf(rts[0].Obj().Pos())] != nil {
			ct := g.clientType(sv)
			for _, m := range sv.methods {
				c12ForwardMethod(g, "generated", sv, rts[0], ct, m)
			}
			c12TypedRouter(g, "generated", sv, svcs[(i+1)%len(svcs)], rts[0])
		}
		if overlay[fileOf(ws[0].Pos())] != nil {
			c12WrapperOf(g, "generated", sv, ws[0])
		}
	}
	for _, o := range g.Obs {
		o.Construct = "produced " + o.Construct
		c.add(o)
	}
}

var _ = (*ssa.Function)(nil)

// declared lists what a package exports.
func (c *Ctx) declared(p *types.Package) string {
	var r []string
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		r = append(r, types.ObjectString(o, nil))
		if tn, ok := o.(*types.TypeName); ok {
			ms := types.NewMethodSet(types.NewPointer(tn.Type()))
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					r = append(r, n+"."+types.ObjectString(ms.At(i).Obj(), nil))
				}
			}
		}
	}
	return strings.Join(r, "\n")
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return "checked in " + x[i]
		}
	}
	if len(y) > len(x) {
		return "produced " + y[len(x)]
	}
	return ""
}
