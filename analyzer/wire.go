package main

import (
	_ "embed"
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed rules/wire.golden
var wireGolden string

// encodedParams: per function, the parameters whose dynamic value is encoded ("ser", "rlp") by it.
type encParam struct {
	f *ssa.Function
	i int
}

func codecOf(g *ssa.Function) (string, int) {
	if g.Pkg == nil {
		return "", 0
	}
	p := g.Pkg.Pkg.Path()
	switch {
	case p == modPath+"/serialize":
		switch g.Name() {
		case "Serialize", "SerializeWithTags", "Deserialize", "DeserializeWithTags", "DeserializeFromBytes":
			if g.Signature.Recv() == nil {
				return "ser", 1
			}
		case "SerializeToBytes":
			return "ser", 0
		case "SerializeStructWithout":
			return "ser", 0
		}
	case strings.HasSuffix(p, "/rlp"):
		switch g.Name() {
		case "Encode", "Decode":
			if g.Signature.Recv() == nil || g.Name() == "Decode" {
				return "rlp", 1
			}
		case "EncodeToBytes", "EncodeToReader":
			return "rlp", 0
		case "DecodeBytes":
			return "rlp", 1
		}
	}
	return "", 0
}

// wireTypes: the types of all values the repository encodes or decodes.
func (w *World) wireTypes() map[string]map[string]types.Type {
	enc := map[encParam]string{}
	out := map[string]map[string]types.Type{"ser": {}, "rlp": {}}
	changed := true
	add := func(kind string, t types.Type) {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		out[kind][t.String()] = t
	}
	var note func(kind string, v ssa.Value, f *ssa.Function, d int)
	note = func(kind string, v ssa.Value, f *ssa.Function, d int) {
		if d > 8 {
			return
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			add(kind, x.X.Type())
		case *ssa.ChangeInterface:
			note(kind, x.X, f, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				note(kind, e, f, d+1)
			}
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == x && enc[encParam{f, i}] == "" {
					enc[encParam{f, i}] = kind
					changed = true
				}
			}
		case *ssa.Call: // reflect.ValueOf(x)
			if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "reflect" && len(x.Call.Args) > 0 {
				note(kind, x.Call.Args[0], f, d+1)
			}
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						note(kind, st.Val, f, d+1)
					}
				}
			}
		case *ssa.TypeAssert:
			note(kind, x.X, f, d+1)
		}
	}
	for n := 0; changed && n < 8; n++ {
		changed = false
		for _, f := range w.all {
			if !w.inRepo(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cm := ci.Common()
					if g := cm.StaticCallee(); g != nil {
						if k, i := codecOf(g); k != "" && i < len(cm.Args) {
							note(k, cm.Args[i], f, 0)
							continue
						}
					}
					for _, g := range w.callees(cm) {
						off := 0
						if cm.IsInvoke() {
							off = 1
						}
						for i, a := range cm.Args {
							if k := enc[encParam{g, i + off}]; k != "" {
								note(k, a, f, 0)
							}
						}
					}
				}
			}
		}
	}
	return out
}

type wireField struct{ name, shape string }

type wireDB struct {
	w    *World
	defs map[string][]wireField // "ser core/types.RootBlockHeader" -> fields
	pos  map[string]string
}

// ref: the encoding of a value of the type; named structs are described once and referred to by name.
func (d *wireDB) ref(kind string, t types.Type, sz int, opt bool) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s := d.ref(kind, p.Elem(), sz, false)
		if opt {
			return "optional(" + s + ")"
		}
		return s
	}
	name := ""
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			name = relPkg(n.Obj().Pkg().Path()) + "." + name
		}
		if name == "math/big.Int" {
			return "bigint"
		}
		a, b := "Serialize", "Deserialize"
		if kind == "rlp" {
			a, b = "EncodeRLP", "DecodeRLP"
		}
		if hasMethod(t, a) && hasMethod(t, b) {
			return "custom(" + name + ")"
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Name()
	case *types.Slice:
		n := ""
		if kind == "ser" {
			n = fmt.Sprintf("/%d", sz)
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return "bytes" + n
		}
		return "list" + n + "(" + d.ref(kind, u.Elem(), 1, false) + ")"
	case *types.Array:
		return fmt.Sprintf("%dx(%s)", u.Len(), d.ref(kind, u.Elem(), 1, false))
	case *types.Interface:
		return "any"
	case *types.Struct:
		if name == "" {
			var ps []string
			for _, f := range d.fields(kind, u) {
				ps = append(ps, f.name+":"+f.shape)
			}
			return "{" + strings.Join(ps, " ") + "}"
		}
		key := kind + " " + name
		if _, ok := d.defs[key]; !ok {
			d.defs[key] = nil
			if n, ok := t.(*types.Named); ok {
				d.pos[key] = d.w.pos(n.Obj().Pos())
			}
			d.defs[key] = d.fields(kind, u)
		}
		return "@" + name
	}
	return "?" + strings.ReplaceAll(t.String(), modPath+"/", "")
}

func (d *wireDB) fields(kind string, u *types.Struct) []wireField {
	var out []wireField
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(u.Tag(i))
		o, skip, mark := false, false, ""
		for _, x := range strings.Split(tag.Get(kind), ",") {
			switch strings.TrimSpace(x) {
			case "-":
				skip = true
			case "nil":
				o = true
			case "tail", "optional":
				mark = strings.TrimSpace(x) + " "
			}
		}
		if skip {
			continue
		}
		n := 1
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			if s := strings.TrimSpace(tag.Get("bytesizeofslicelen")); s != "" {
				fmt.Sscanf(s, "%d", &n)
			}
		}
		out = append(out, wireField{f.Name(), mark + d.ref(kind, f.Type(), n, o)})
	}
	return out
}

// ownCodec: what a hand-written codec encodes and reads directly, in source order over the method and its helpers.
func (d *wireDB) ownCodec(f *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				if k, i := codecOf(g); k != "" && i < len(ci.Common().Args) {
					if mi, ok := ci.Common().Args[i].(*ssa.MakeInterface); ok {
						t := mi.X.Type()
						if p, ok := t.(*types.Pointer); ok {
							t = p.Elem()
						}
						out = append(out, d.ref(k, t, 1, false))
					}
					continue
				}
				if g.Signature.Recv() != nil && strings.HasSuffix(g.Signature.Recv().Type().String(), "serialize.ByteBuffer") {
					s := g.Name()
					if s == "Remaining" || s == "GetOffset" {
						continue
					}
					if len(ci.Common().Args) > 1 {
						if c, ok := ci.Common().Args[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
							s += "(" + c.Value.String() + ")"
						}
					}
					out = append(out, s)
					continue
				}
				if d.w.inRepo(g) && g.Pkg == f.Pkg && g.Signature.Recv() == nil {
					walk(g)
				}
			}
		}
	}
	walk(f)
	sort.Strings(out)
	return out
}

func (w *World) wireDB() *wireDB {
	d := &wireDB{w, map[string][]wireField{}, map[string]string{}}
	wt := w.wireTypes()
	for kind, ts := range wt {
		for _, t := range ts {
			d.ref(kind, t, 1, false)
		}
	}
	// fields of the types behind a hand-written codec are found through the codec's own calls
	for _, f := range w.all {
		if !w.inRepo(f) || f.Signature.Recv() == nil || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		switch f.Name() {
		case "Serialize", "Deserialize", "EncodeRLP", "DecodeRLP":
			t := f.Signature.Recv().Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			n, ok := t.(*types.Named)
			if !ok || strings.HasSuffix(n.Obj().Pkg().Path(), "/serialize") {
				continue
			}
			key := "codec " + relPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + f.Name()
			d.pos[key] = w.pos(f.Pos())
			for _, s := range d.ownCodec(f) {
				d.defs[key] = append(d.defs[key], wireField{"", s})
			}
		}
	}
	return d
}

func (d *wireDB) dump() string {
	var ks []string
	for k := range d.defs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k)
		for _, f := range d.defs[k] {
			sb.WriteString("\n\t" + f.name + "\t" + f.shape)
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// wire: every encoded type has the wire layout of the protocol.
func (c *Ctx) wire() {
	d := c.w.wireDB()
	gold := map[string][]wireField{}
	cur := ""
	for _, l := range strings.Split(wireGolden, "\n") {
		if strings.HasPrefix(l, "\t") {
			p := strings.SplitN(l[1:], "\t", 2)
			gold[cur] = append(gold[cur], wireField{p[0], p[1]})
		} else if l != "" {
			cur = l
			gold[cur] = nil
		}
	}
	var ks []string
	for k := range gold {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		got, ok := d.defs[k]
		if !ok {
			// renamed: some type of the same layout took its place
			for k2, g2 := range d.defs {
				if _, old := gold[k2]; !old && diffWire(gold[k], g2) == "" {
					ok, got = true, g2
				}
			}
			if !ok {
				c.fail("wire-layout", k, "no value of this layout is encoded any more")
				continue
			}
		}
		if diff := diffWire(gold[k], got); diff != "" {
			c.fail("wire-layout", d.pos[k]+" "+k, "encoding differs from the protocol: "+diff)
			continue
		}
		c.ok("wire-layout", d.pos[k]+" "+k, fmt.Sprintf("%d parts in protocol order with protocol widths", len(got)))
	}
	for k, fs := range d.defs {
		for _, f := range fs {
			if strings.HasPrefix(k, "ser ") && strings.Contains(f.shape, "/") {
				for _, bad := range []string{"/0", "/5", "/6", "/7", "/8", "/9"} {
					c.check(!strings.Contains(f.shape, bad), "length-prefix", d.pos[k]+" "+k+"."+f.name, "length prefix of 1 to 4 bytes, which the decoder accepts")
				}
			}
			if strings.HasPrefix(k, "ser ") && strings.HasPrefix(f.shape, "?") {
				c.fail("wire-type", d.pos[k]+" "+k+"."+f.name, "type "+f.shape+" cannot be encoded")
			}
		}
	}
}

func diffWire(a, b []wireField) string {
	names := map[string]bool{}
	for _, f := range a {
		names[f.name] = true
	}
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("part %d (%s %s) is missing", i+1, a[i].name, a[i].shape)
		}
		if a[i].shape != b[i].shape {
			return fmt.Sprintf("part %d should be %s %s, is %s %s", i+1, a[i].name, a[i].shape, b[i].name, b[i].shape)
		}
		if a[i].name != b[i].name && names[b[i].name] {
			return fmt.Sprintf("part %d should be %s, is %s", i+1, a[i].name, b[i].name)
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("extra part %s %s", b[len(a)].name, b[len(a)].shape)
	}
	return ""
}
