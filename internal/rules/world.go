package rules

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/types"
	"hash"
	"hash/fnv"
	"regexp"
	"strings"
	"time"

	"scverify/internal/absint"
)

// The world of trait models: clocks that advance by a second whenever they're asked, a source of randomness that
// counts, encodings of known bytes. With known messages (tmCfg) everything trait models compute is known.

// base64Tables are the encodings, by the name of the global.
var base64Tables = map[string]*base64.Encoding{
	"StdEncoding": base64.StdEncoding, "URLEncoding": base64.URLEncoding,
	"RawStdEncoding": base64.RawStdEncoding, "RawURLEncoding": base64.RawURLEncoding,
}

func worldCfg(cfg *absint.Config) *absint.Config {
	cfg = tmCfg(timeCfg(streamCfg(cfg)))
	if cfg.MaxLoop == 0 {
		cfg.MaxLoop = 300
	}
	now := func(key string, epoch int64) func(c *absint.Call) (Val, bool) {
		return func(c *absint.Call) (Val, bool) {
			n, _ := c.P.Data[key].(int64)
			c.P.Data[key] = n + 1
			v := mkTime(c.P, resType(c), time.Unix(epoch+n, 0).UTC())
			c.P.AddEvent(&absint.Event{Kind: "now", Name: key, Res: v})
			return v, true
		}
	}
	modelClock := now("world.clock", modelEpoch)
	cfg.Hooks["time.Now"] = now("world.time", 9000000)
	cfg.Hooks[tsNS+".Now"] = func(c *absint.Call) (Val, bool) {
		n, _ := c.P.Data["world.time"].(int64)
		c.P.Data["world.time"] = n + 1
		return mkSecNanos(c.P, pointee(resType(c)), 9000000+n, 0), true
	}
	read := func(c *absint.Call) (Val, bool) {
		buf := c.Args[len(c.Args)-1]
		sl, ok := c.P.SliceOf(buf)
		if !ok {
			return nil, false
		}
		n, _ := c.P.Data["world.random"].(int64)
		c.P.Data["world.random"] = n + 1
		for i := sl.Lo; i < sl.Hi; i++ {
			x := int64(0)
			if i == sl.Lo {
				x = n + 1
			}
			sl.Arr.Cells[i].Set(c.P, absint.Const{T: types.Typ[types.Byte], V: constant.MakeInt64(x)})
		}
		return absint.TupleV{absint.MkInt(int64(sl.Hi - sl.Lo)), absint.MkNil(errType)}, true
	}
	cfg.Hooks["iface:(io.Reader).Read"] = read
	cfg.Hooks["(*math/rand.Rand).Read"] = read
	old := cfg.Hook
	cfg.Hook = func(c *absint.Call) (Val, bool) {
		if c.Recv != nil {
			if sym, ok := c.Recv.(*absint.Sym); ok && sym.Key == "clock" && strings.HasSuffix(c.Name, ".Now") {
				return modelClock(c)
			}
		}
		if v, ok := hashFn(c); ok {
			return v, true
		}
		switch c.Name {
		case "(*encoding/base64.Encoding).EncodeToString":
			if b, ok := knownBytes(c.P, c.Args[1]); ok {
				if e := base64Of(c.P, c.Args[0]); e != nil {
					return absint.MkString(e.EncodeToString(b)), true
				}
			}
		case "(*encoding/base64.Encoding).DecodeString":
			if x, ok := absint.StringConst(c.P.Resolve(c.Args[1])); ok {
				if e := base64Of(c.P, c.Args[0]); e != nil {
					b, err := e.DecodeString(x)
					var ev Val = absint.MkNil(errType)
					if err != nil {
						ev = c.P.MkErr(absint.MkInt(2), absint.MkString(err.Error()))
					}
					return absint.TupleV{mkBytes(c.P, b), ev}, true
				}
			}
		}
		if old != nil {
			return old(c)
		}
		return nil, false
	}
	return cfg
}

const modelEpoch = 1000000

func base64Of(p *absint.Path, v Val) *base64.Encoding {
	k := absint.Key(p.Resolve(v))
	for name, e := range base64Tables {
		if strings.HasSuffix(k, "base64."+name) {
			return e
		}
	}
	return nil
}

func knownBytes(p *absint.Path, v Val) ([]byte, bool) {
	v = p.Resolve(v)
	if absint.IsNilConst(v) {
		return nil, true
	}
	if _, isSlice := v.(absint.SliceV); !isSlice {
		return nil, false
	}
	sl, ok := p.SliceOf(v)
	if !ok {
		return nil, false
	}
	r := []byte{}
	for i := sl.Lo; i < sl.Hi; i++ {
		n, ok := absint.IntConst(p.Resolve(sl.Arr.Cells[i].Load()))
		if !ok {
			return nil, false
		}
		r = append(r, byte(n))
	}
	return r, true
}

func mkBytes(p *absint.Path, b []byte) Val {
	var es []Val
	for _, x := range b {
		es = append(es, absint.Const{T: types.Typ[types.Byte], V: constant.MakeInt64(int64(x))})
	}
	return p.MkSlice(types.NewSlice(types.Typ[types.Byte]), p.Fresh("bytes"), es...)
}

// clockReadings is how often the model's clock has been asked.
func (s *Scn) clockReadings() int64 {
	n, _ := s.P.Data["world.clock"].(int64)
	return n
}

// seconds are the seconds of a Timestamp or Duration, -1 when it's absent.
func (s *Scn) seconds(v Val) int64 {
	if v == nil || s.P.IsNil(v) {
		return -1
	}
	n, _, ok := secNanos(s.P, v)
	if !ok {
		s.P.Stuck("unknown time %s", absint.Key(v))
	}
	return n
}

// str reads a string that has to be known.
func (s *Scn) str(v Val) string {
	x, ok := absint.StringConst(s.P.Resolve(v))
	if !ok {
		s.P.Stuck("unknown string %s", absint.Key(v))
	}
	return x
}

// list reads the elements of a slice.
func (s *Scn) list(v Val) []Val {
	if s.P.IsNil(v) {
		return nil
	}
	sl, ok := s.P.SliceOf(v)
	if !ok {
		s.P.Stuck("unknown slice %s", absint.Key(v))
	}
	var r []Val
	for i := sl.Lo; i < sl.Hi; i++ {
		r = append(r, s.P.Resolve(sl.Arr.Cells[i].Load()))
	}
	return r
}

// hashes are the constructors of hashes, by function.
var hashes = map[string]func() hash.Hash{
	"crypto/md5.New": md5.New, "crypto/sha1.New": sha1.New, "crypto/sha256.New": sha256.New, "crypto/sha512.New": sha512.New,
	"hash/fnv.New128": fnv.New128, "hash/fnv.New128a": fnv.New128a,
	"hash/fnv.New64": func() hash.Hash { return fnv.New64() }, "hash/fnv.New64a": func() hash.Hash { return fnv.New64a() },
}

// hashFn computes hashes of known bytes and formats known values.
func hashFn(c *absint.Call) (Val, bool) {
	p := c.P
	if f := hashes[c.Name]; f != nil {
		h := p.NonNilSym(p.Fresh("hash:"+c.Name), c.Sig.Results().At(0).Type())
		p.Data["hash."+absint.Key(h)] = []byte{}
		return h, true
	}
	// the hash may be the receiver or, for io.WriteString and the like, an argument
	hashOf := func(v Val) (string, []byte, bool) {
		if v == nil {
			return "", nil, false
		}
		sym, ok := absint.Unwrap(p.Resolve(v)).(*absint.Sym)
		if !ok {
			return "", nil, false
		}
		b, ok := p.Data["hash."+sym.Key].([]byte)
		return sym.Key, b, ok
	}
	write := func(k string, b []byte, x Val, str bool) (Val, bool) {
		var add []byte
		if str {
			y, ok := absint.StringConst(p.Resolve(x))
			if !ok {
				return nil, false
			}
			add = []byte(y)
		} else {
			y, ok := knownBytes(p, x)
			if !ok {
				return nil, false
			}
			add = y
		}
		p.Data["hash."+k] = append(append([]byte{}, b...), add...)
		return absint.TupleV{absint.MkInt(int64(len(add))), absint.MkNil(errType)}, true
	}
	if c.Name == "io.WriteString" {
		if k, b, ok := hashOf(c.Args[0]); ok {
			return write(k, b, c.Args[1], true)
		}
	}
	if k, b, ok := hashOf(c.Recv); ok {
		switch {
		case strings.HasSuffix(c.Name, ".Write"):
			return write(k, b, c.Args[len(c.Args)-1], false)
		case strings.HasSuffix(c.Name, ".WriteString"):
			return write(k, b, c.Args[len(c.Args)-1], true)
		case strings.HasSuffix(c.Name, ".Sum"):
			pre, ok := knownBytes(p, c.Args[len(c.Args)-1])
			if !ok {
				return nil, false
			}
			for n, f := range hashes {
				if strings.Contains(k, "hash:"+n) {
					h := f()
					h.Write(b)
					return mkBytes(p, h.Sum(pre)), true
				}
			}
		}
	}
	switch c.Name {
	case "encoding/hex.EncodeToString":
		if b, ok := knownBytes(p, c.Args[0]); ok {
			return absint.MkString(hex.EncodeToString(b)), true
		}
	case "fmt.Sprintf":
		f, ok := absint.StringConst(p.Resolve(c.Args[0]))
		sl, ok2 := p.SliceOf(c.Args[1])
		if !ok || !ok2 {
			return nil, false
		}
		var args []any
		for i := sl.Lo; i < sl.Hi; i++ {
			iv := p.Resolve(sl.Arr.Cells[i].Load())
			x, isIface := iv.(absint.IfaceV)
			if !isIface {
				return nil, false
			}
			xt := x.T
			if b, isBasic := xt.Underlying().(*types.Basic); isBasic && onlyNumbers(f) {
				xt = b // String() isn't used
			}
			switch t := xt.(type) {
			case *types.Basic:
				if y, ok := absint.StringConst(p.Resolve(x.V)); ok {
					args = append(args, y)
					continue
				}
				if t.Info()&types.IsInteger != 0 {
					if y, ok := absint.IntConst(p.Resolve(x.V)); ok {
						args = append(args, y)
						continue
					}
				}
			case *types.Slice:
				if b, ok := knownBytes(p, x.V); ok && types.Identical(t.Elem(), types.Typ[types.Byte]) {
					args = append(args, b)
					continue
				}
			}
			return nil, false
		}
		return absint.MkString(fmt.Sprintf(f, args...)), true
	}
	return nil, false
}

var numberVerbs = regexp.MustCompile(`%[-+ 0]*[0-9]*[dx]`)

// onlyNumbers is whether the verbs in a format are all for integers.
func onlyNumbers(f string) bool { return !strings.Contains(numberVerbs.ReplaceAllString(f, ""), "%") }
