package fc

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	fontconfig "github.com/benoitkugler/textprocessing/fontconfig"
	"verifharness/run"
)

// bindings lists the values of an object with their bindings, as they are
// printed (this is where bindings can be seen)
func bindings(p fontconfig.Pattern, o obj) string {
	l, ok := p[o]
	if !ok {
		return ""
	}
	// the kinds of binding only, the values are compared exactly elsewhere
	s := fmt.Sprint(*l)
	var sb strings.Builder
	for i := 0; i+2 < len(s); i++ {
		if s[i] == '(' && s[i+2] == ')' && strings.IndexByte("sw=", s[i+1]) >= 0 {
			sb.WriteByte(s[i+1])
		}
	}
	return sb.String()
}

// dropExtra removes the languages out of the orthography table, which the
// cache does not store
func dropExtra(m pmodel) pmodel {
	out := m.clone()
	for _, l := range out {
		for i, v := range l {
			if ls, ok := v.(fontconfig.Langset); ok {
				var keep []string
				for _, x := range strings.Split(ls.String(), "|") {
					if knownLangs[x] {
						keep = append(keep, x)
					}
				}
				l[i] = fontconfig.NewLangset(strings.Join(keep, "|"))
			}
		}
	}
	return out
}

// failing writer: accepts n bytes
type failWriter struct {
	n      int
	err    error
	failed bool
}

func (w *failWriter) Write(b []byte) (int, error) {
	if len(b) > w.n {
		n := w.n
		w.n, w.failed = 0, true
		return n, w.err
	}
	w.n -= len(b)
	return len(b), nil
}

// slowReader gives the content by small pieces
type slowReader struct {
	b []byte
	n int
}

func (r *slowReader) Read(b []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := min(r.n, len(b), len(r.b))
	copy(b, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

func genStoredPattern(t *run.T) fontconfig.Pattern {
	p := genPattern(t, run.Pick(t, 0, 2, 6, 20), 3)
	if t.Chance(0.3) { // weak values
		o := run.Pick(t, fontconfig.FAMILY, fontconfig.STYLE, fontconfig.SIZE, fontconfig.ANTIALIAS, fontconfig.FILE)
		var v fontconfig.Value
		for {
			v = genValue(t, objKinds[o])
			if s, ok := v.(fontconfig.String); !ok || s != "" && !strings.Contains(string(s), "\x00") {
				break
			}
		}
		addWeak(t, p, o, []fontconfig.Value{v}, t.Chance(0.5))
	}
	switch t.IntN(12) {
	case 0:
		p.Add(fontconfig.FILE, fontconfig.String(strings.Repeat("x", t.IntN(200000))), true)
	case 1:
		for n := t.IntN(3000); n > 0; n-- {
			p.Add(fontconfig.INDEX, fontconfig.Int(n), true)
		}
	case 2:
		var c fontconfig.Charset
		for n := t.IntN(4000); n > 0; n-- {
			c.AddChar(rune(t.IntN(0x110000)))
		}
		p.Add(fontconfig.CHARSET, c, true)
	case 3:
		p.Add(fontconfig.FirstCustomObject+obj(t.IntN(65000-int(fontconfig.FirstCustomObject))), genValue(t, kAny), true)
	case 4:
		p.Add(fontconfig.SIZE, fontconfig.Float(math.Float32frombits(t.Uint32())), true)
		p.Add(fontconfig.FirstCustomObject, fontconfig.Int(int32(t.Uint32())), true)
		p.Add(fontconfig.WIDTH, fontconfig.Range{Begin: math.Float32frombits(t.Uint32()), End: math.Float32frombits(t.Uint32())}, true)
	}
	return p
}

// full content of a charset, whatever its pages
func charsetFull(c fontconfig.Charset) string {
	var sb strings.Builder
	for r := rune(0); r < 0x110000; r++ {
		if c.HasChar(r) {
			fmt.Fprintf(&sb, "%x ", r)
		}
	}
	return sb.String()
}

// F03: caches give back the set
func F03() *run.Prop {
	return &run.Prop{
		ID:    "F03",
		Rule:  "Serialize then LoadFontset gives back the same set, which answers the same",
		Quick: 3000, Thorough: 100000,
		Need: map[string]int64{"patterns": 1000, "queries": 1000, "write_faults": 500, "weak": 100},
		Run: func(t *run.T) {
			var fs fontconfig.Fontset
			n := run.Pick(t, 0, 1, 2, 5, 20)
			if t.Chance(0.5) {
				for i := 0; i < n; i++ {
					fs = append(fs, genStoredPattern(t))
				}
			} else {
				fs, _ = genFonts(t, pickObjs(t), n)
			}
			for i, p := range fs {
				t.Step("%d %s", i, clip(canonPattern(p), 600))
			}
			t.Count("patterns", n)
			before := canonSet(fs)
			var buf bytes.Buffer
			if t.Chance(0.01) && n > 0 { // the most values
				big := fs[t.IntN(n)]
				for k := 65534 + t.IntN(4) - len(values(big, fontconfig.CHAR_HEIGHT)); k > 0; k-- {
					big.Add(fontconfig.CHAR_HEIGHT, fontconfig.Int(k), true)
				}
				before = canonSet(fs)
				t.Count("big_lists", 1)
				if len(values(big, fontconfig.CHAR_HEIGHT)) > 65535 {
					if fs.Serialize(&buf) == nil {
						t.Failf("serialize big", "Serialize accepts too many values")
					}
					return
				}
			}
			if err := fs.Serialize(&buf); err != nil {
				t.Failf("serialize", "Serialize: %s", err)
			}
			if !same(canonSet(fs), before) {
				t.Failf("mutated", "Serialize changed the set")
			}
			data := buf.Bytes()
			var src io.Reader = bytes.NewReader(data)
			if t.Chance(0.3) {
				src = &slowReader{append([]byte(nil), data...), t.Range(1, 50)}
			}
			got, err := fontconfig.LoadFontset(src)
			if err != nil {
				t.Failf("load", "LoadFontset: %s", err)
			}
			if len(got) != len(fs) {
				t.Failf("count", "%d patterns stored, %d read", len(fs), len(got))
			}
			for i, p := range fs {
				m := dropExtra(modelOf(p))
				a, b := modelOf(got[i]).canon(), m.canon()
				if a != b {
					t.Failf("content", "pattern %d: read %s\nstored %s", i, clip(a, 2000), clip(b, 2000))
				}
				for o, l := range m {
					if x, y := bindings(got[i], o), bindings(p, o); x != y || len(x) < len(l) {
						t.Failf("bindings", "pattern %d: bindings of %s %s were %s", i, o, x, y)
					} else if strings.Contains(y, "w") {
						t.Count("weak", 1)
					}
					for k, v := range l {
						if c, ok := v.(fontconfig.Charset); ok && c.Len() > 200 {
							if charsetFull(c) != charsetFull(values(got[i], o)[k].(fontconfig.Charset)) {
								t.Failf("charset", "pattern %d: charset of %d characters altered", i, c.Len())
							}
						}
					}
				}
			}
			t.Distinct(strings.Join(before, "|"))
			// the same answers
			for k := t.IntN(4); k > 0; k-- {
				q, _ := genQuery(t, pickObjs(t))
				stored := make(fontconfig.Fontset, len(fs))
				for i := range fs {
					stored[i] = fontconfig.NewPattern()
					for o, l := range dropExtra(modelOf(fs[i])) {
						for _, v := range l {
							stored[i].Add(o, v, true)
						}
					}
				}
				t.Count("queries", 1)
				if a, b := canonPattern(got.Match(q, fontconfig.NewConfig())), canonPattern(stored.Match(q, fontconfig.NewConfig())); a != b {
					t.Failf("match", "query %s: match %s, was %s", canonPattern(q), clip(a, 1000), clip(b, 1000))
				}
				s1, c1 := got.Sort(q, t.Chance(0.5))
				s2, c2 := stored.Sort(q, len(s1) != len(got))
				if !same(canonSet(s1), canonSet(s2)) && len(s1) != len(got) || !sameRunes(runesOf(c1), runesOf(c2)) {
					t.Failf("sort", "query %s: sort differs", canonPattern(q))
				}
				l1, l2 := canonSet(got.List(q)), canonSet(stored.List(q))
				sort.Strings(l1)
				sort.Strings(l2)
				if !same(l1, l2) {
					t.Failf("list", "query %s: list differs", canonPattern(q))
				}
			}
			// again: same content
			var buf2 bytes.Buffer
			if err := got.Serialize(&buf2); err != nil {
				t.Failf("serialize", "Serialize again: %s", err)
			}
			got2, err := fontconfig.LoadFontset(&buf2)
			if err != nil || !same(canonSet(got2), canonSet(got)) {
				t.Failf("again", "second round trip: %v", err)
			}
			// a writer which fails
			if len(data) > 0 && t.Chance(0.5) {
				t.Count("write_faults", 1)
				w := &failWriter{t.IntN(len(data)), errors.New("disk full"), false}
				if err := fs.Serialize(w); err == nil {
					// the map order changes the size of the compressed data
					if w.failed {
						t.Failf("write fault", "Serialize hides the failure of the writer")
					}
				}
			}
			// a file
			if t.Chance(0.05) {
				dir, err := os.MkdirTemp("", "verif-f03-")
				if err != nil {
					return
				}
				defer os.RemoveAll(dir)
				file := filepath.Join(dir, "cache")
				if os.WriteFile(file, data, 0o600) == nil {
					got, err := fontconfig.LoadFontsetFile(file)
					if err != nil || len(got) != len(fs) {
						t.Failf("file", "LoadFontsetFile: %v", err)
					}
				}
				if _, err := fontconfig.LoadFontsetFile(filepath.Join(dir, "none")); err == nil {
					t.Failf("file", "LoadFontsetFile accepts a missing file")
				}
			}
		},
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ------------------------------------------------------------------- F04

// exercise uses every part of a set
func exercise(t *run.T, fs fontconfig.Fontset) {
	for k := 0; k < 3; k++ {
		q, _ := genQuery(t, pickObjs(t))
		if k == 2 {
			q.SubstituteDefault()
		}
		cfg := fontconfig.NewConfig()
		p := fs.Match(q, cfg)
		if p != nil {
			cfg.PrepareRender(q, p)
		}
		for i := range fs {
			if i < 5 {
				cfg.PrepareRender(q, fs[i])
				q2 := fs[i].Duplicate()
				q2.SubstituteDefault()
				fs.Match(q2, cfg)
				fs.List(q2, fontconfig.FAMILY, fontconfig.CHARSET, fontconfig.LANG)
			}
		}
		fs.Sort(q, false)
		fs.Sort(q, true)
		fs.List(q)
		fs.List(fontconfig.NewPattern(), matchObjs...)
	}
	for _, p := range fs {
		_ = p.String()
		p.Hash()
		p.Format()
		p.FaceID()
		for o := range p {
			p.GetAt(o, 0)
			p.GetBool(o)
			p.GetCharset(o)
			p.GetFloat(o)
			p.GetFloats(o)
			p.GetInt(o)
			p.GetInts(o)
			p.GetMatrices(o)
			p.GetMatrix(o)
			p.GetString(o)
			p.GetStrings(o)
			for _, v := range values(p, o) {
				switch v := v.(type) {
				case fontconfig.Charset:
					c := v.Copy()
					for k := 0; k < 5; k++ {
						r := genRune(t, len(genPages))
						c.AddChar(r)
						if !c.HasChar(r) {
							t.Failf("charset", "a character added to a charset of the cache is not there")
						}
						c.DelChar(r)
						if c.HasChar(r) {
							t.Failf("charset", "a character removed from a charset of the cache is still there")
						}
					}
					if n, m := v.Len(), len(runesOf(v)); n < m {
						t.Failf("charset", "length %d for at least %d characters", n, m)
					}
				case fontconfig.Langset:
					_ = v.String()
					v.Copy()
				}
			}
		}
	}
}

// payload writes a structure close to a valid set
type payload struct {
	bytes.Buffer
}

func (p *payload) u8(v int)  { p.WriteByte(byte(v)) }
func (p *payload) u16(v int) { binary.Write(p, binary.BigEndian, uint16(v)) }
func (p *payload) u32(v int) { binary.Write(p, binary.BigEndian, uint32(v)) }

func genPayload(t *run.T, evil float64) []byte {
	var p payload
	lie := func(v, max int) int {
		if t.Chance(evil / 4) {
			return run.Pick(t, 0, v+1, v-1, max, max/2, t.IntN(max))
		}
		return v
	}
	n := run.Pick(t, 0, 1, 2, 5)
	p.u32(lie(n, 2000000))
	for i := 0; i < n; i++ {
		var q payload
		nobj := t.IntN(8)
		q.u16(lie(nobj, 65535))
		for k := 0; k < nobj; k++ {
			o := allObjs[t.IntN(len(allObjs))]
			kind := objKinds[o]
			if t.Chance(evil) {
				o = obj(run.Pick(t, 0, t.IntN(60), t.IntN(65536), 65535))
			}
			q.u16(int(o))
			nval := t.Range(1, 3)
			if t.Chance(evil) {
				nval = 0
			}
			q.u16(lie(nval, 65535))
			for v := 0; v < nval; v++ {
				q.u8(lie(run.Pick(t, 0, 1), 255))
				if t.Chance(evil) {
					kind = kAny
				}
				v := genValue(t, kind)
				fl := func(f float32) {
					if t.Chance(evil) {
						f = run.Pick(t, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), -1, math.Float32frombits(t.Uint32()))
					}
					q.u32(int(math.Float32bits(f)))
				}
				switch v := v.(type) {
				case fontconfig.Int:
					q.u8(lie(1, 255))
					q.u32(int(int32(v)))
				case fontconfig.Float:
					q.u8(lie(2, 255))
					fl(float32(v))
				case fontconfig.String:
					q.u8(lie(3, 255))
					q.u32(lie(len(v), 1<<32-1))
					q.WriteString(string(v))
				case fontconfig.Bool:
					q.u8(lie(4, 255))
					q.u8(lie(int(v), 255))
				case fontconfig.Charset:
					q.u8(lie(5, 255))
					np := t.IntN(4)
					q.u16(lie(np, 65535))
					page := t.IntN(3)
					for j := 0; j < np; j++ {
						q.u16(page)
						for b := 0; b < 8; b++ {
							q.u32(int(run.Pick(t, 0, 1, 0xffffffff, t.Uint32())))
						}
						page += t.Range(1, 200)
						if t.Chance(evil) {
							page = run.Pick(t, 0, 1, 0xffff, page-1, 0x10ff, 0x1100, t.IntN(65536))
						}
					}
				case fontconfig.Langset:
					q.u8(lie(6, 255))
					for b := 0; b < 9; b++ {
						w := t.Uint32()
						if t.Chance(0.5) {
							w = 0
						}
						q.u32(int(w))
					}
				case fontconfig.Matrix:
					q.u8(lie(7, 255))
					fl(v.Xx)
					fl(v.Xy)
					fl(v.Yx)
					fl(v.Yy)
				case fontconfig.Range:
					q.u8(lie(8, 255))
					fl(v.Begin)
					fl(v.End)
				}
			}
		}
		p.u32(lie(q.Len(), 1<<32-1))
		p.Write(q.Bytes())
	}
	return p.Bytes()
}

func zip(b []byte) []byte {
	var out bytes.Buffer
	w := gzip.NewWriter(&out)
	w.Write(b)
	w.Close()
	return out.Bytes()
}

func unzip(b []byte) []byte {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	out, _ := io.ReadAll(r)
	return out
}

func mutate(t *run.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := run.Pick(t, 1, 1, 2, 5); k > 0 && len(b) > 0; k-- {
		i := t.IntN(len(b))
		switch t.IntN(7) {
		case 0:
			b[i] ^= 1 << t.IntN(8)
		case 1:
			b[i] = byte(run.Pick(t, 0, 1, 0x7f, 0x80, 0xff, t.IntN(256)))
		case 2:
			b = b[:i]
		case 3:
			b = append(b[:i:i], b[min(len(b), i+t.Range(1, 8)):]...)
		case 4:
			x := make([]byte, t.Range(1, 8))
			for j := range x {
				x[j] = byte(t.IntN(256))
			}
			b = append(b[:i:i], append(x, b[i:]...)...)
		case 5: // length like fields
			if i+4 <= len(b) {
				binary.BigEndian.PutUint32(b[i:], run.Pick[uint32](t, 0xffffffff, 0x7fffffff, 0x10000, 0, 0xffff0000))
			}
		case 6:
			j := t.IntN(len(b))
			n := min(t.Range(1, 40), len(b)-i, len(b)-j)
			copy(b[i:i+n], append([]byte(nil), b[j:j+n]...))
		}
	}
	return b
}

// F04: damaged caches
func F04() *run.Prop {
	return &run.Prop{
		ID:    "F04",
		Rule:  "a damaged cache is refused, or gives a set which can be used",
		Quick: 6000, Thorough: 300000, HeapMB: 600,
		Need: map[string]int64{"refused": 500, "accepted": 500, "file_damage": 500},
		Run: func(t *run.T) {
			var fs fontconfig.Fontset
			valid := func() []byte {
				for i := run.Pick(t, 1, 1, 2, 6); i > 0; i-- {
					if t.Chance(0.5) {
						fs = append(fs, genStoredPattern(t))
					} else {
						f, _ := genFonts(t, pickObjs(t), 1)
						fs = append(fs, f...)
					}
				}
				var buf bytes.Buffer
				if err := fs.Serialize(&buf); err != nil {
					t.Failf("serialize", "Serialize: %s", err)
				}
				return buf.Bytes()
			}
			var data []byte
			mode := t.IntN(4)
			switch mode {
			case 0: // damage on the disk
				orig := valid()
				data = mutate(t, orig)
				t.Input("file %x", clip(string(data), 3000))
				t.Count("file_damage", 1)
				got, err := fontconfig.LoadFontset(bytes.NewReader(data))
				if err == nil {
					// nothing but the header of the compression, which is not
					// part of the content, or what follows
					want := canonSet(fs)
					for i := range fs {
						want[i] = dropExtra(modelOf(fs[i])).canon()
					}
					have := make([]string, len(got))
					for i := range got {
						have[i] = modelOf(got[i]).canon()
					}
					if !same(have, want) {
						t.Failf("undetected", "a cache with a damaged file is accepted with another content")
					}
					t.Count("harmless", 1)
				}
				t.Distinct(data)
				return
			case 1:
				data = zip(mutate(t, unzip(valid())))
			case 2:
				data = zip(genPayload(t, run.Pick(t, 0.02, 0.1, 0.5)))
			case 3:
				data = zip(mutate(t, genPayload(t, 0.05)))
			}
			p := unzip(data)
			t.Input("payload (%d bytes) %x", len(p), clip(string(p), 3000))
			t.Distinct(p)
			got, err := fontconfig.LoadFontset(bytes.NewReader(data))
			if err != nil {
				t.Count("refused", 1)
				return
			}
			t.Count("accepted", 1)
			// what has been read may be used
			ops := canonSet(got)
			var buf bytes.Buffer
			if err := got.Serialize(&buf); err != nil {
				t.Failf("serialize", "the set read from the cache can not be written: %s", err)
			}
			again, err := fontconfig.LoadFontset(&buf)
			if err != nil {
				t.Failf("reload", "the set read from the cache, once written, is refused: %s", err)
			}
			if !same(canonSet(again), ops) {
				t.Failf("reload", "the set read from the cache changes when written")
			}
			exercise(t, got)
		},
	}
}
