package rules

import (
	"go/types"
	"strings"

	"scverify/internal/absint"
)

// fakeStream is the server's end of a stream.
type fakeStream struct {
	v      Val
	ctx    Val
	sent   []Val
	onSend func(m Val) Val // what Send returns, nil to accept
}

// streamCfg makes streams of serverStream work.
func streamCfg(cfg *absint.Config) *absint.Config {
	old := cfg.Hook
	cfg.Hook = func(c *absint.Call) (Val, bool) {
		if sym, ok := c.Recv.(*absint.Sym); ok && strings.HasPrefix(sym.Key, "stream#") {
			if st, ok := c.P.Data["stream:"+sym.Key].(*fakeStream); ok {
				switch c.Name[strings.LastIndex(c.Name, ".")+1:] {
				case "Context":
					return st.ctx, true
				case "Send", "SendMsg":
					if st.onSend != nil {
						if e := st.onSend(c.Args[0]); e != nil {
							return e, true
						}
					}
					st.sent = append(st.sent, c.Args[0])
					return absint.MkNil(errType), true
				case "SendHeader", "SetHeader":
					return absint.MkNil(errType), true
				case "SetTrailer":
					return absint.TupleV{}, true
				}
			}
		}
		if old != nil {
			return old(c)
		}
		return nil, false
	}
	return cfg
}

// serverStream creates a stream that accepts every message.
func (s *Scn) serverStream(ctx Val) *fakeStream {
	key := s.P.Fresh("stream")
	st := &fakeStream{ctx: ctx}
	st.v = &absint.Sym{Key: key, T: s.C.ExtType("google.golang.org/grpc", "ServerStream"), NonNil: true}
	s.P.SetFact("nil:"+key, 1)
	s.P.Data["stream:"+key] = st
	return st
}

// collectionOf finds the collection a model stores things in.
func (s *Scn) collectionOf(model Val) Val {
	v := s.resourceOf(model, "Collection")
	if v == nil {
		panic(missing{"collection of " + absint.Key(model)})
	}
	return v
}

func (s *Scn) resourceOf(model Val, name string) Val {
	sv, ok := s.P.Deref(model).Load0().(*absint.StructV)
	if !ok {
		return nil
	}
	st, ok := sv.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	want := s.C.Type(resPkg, name)
	for i := 0; i < st.NumFields(); i++ {
		if pt, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), want) {
			return s.P.Resolve(sv.Field(i).Load())
		}
	}
	return nil
}
