package water

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
)

type vBody struct {
	data   []byte
	chunk  int
	err    error
	closed int
}

func (b *vBody) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := b.chunk
	if n > len(p) {
		n = len(p)
	}
	if n > len(b.data) {
		n = len(b.data)
	}
	copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}
func (b *vBody) Close() error { b.closed++; return nil }

func TestVerifC19(t *testing.T) {
	r := vRand()
	defer func(a, b, c bool) { LogClose, LogHttpBody, LogColor = a, b, c }(LogClose, LogHttpBody, LogColor)
	sizes := []int{0, 1, 2, 100, 4096, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 5000, 3 << 20}
	for i := 0; i < vN(160); i++ {
		LogClose, LogHttpBody, LogColor = r.Intn(4) == 0, r.Intn(4) != 0, r.Intn(2) == 0
		size := sizes[r.Intn(len(sizes))]
		data := make([]byte, size)
		r.Read(data)
		if r.Intn(2) == 0 && size > 0 {
			// bodies as clients write them: text with blanks around it
			copy(data, []string{" {\"a\":1}", "\r\n[1]", "\xef\xbb\xbf{}", "\x00"}[r.Intn(4)])
			tail := []string{"\n", "\r\n", "}\n\n", " \t", "\x00\x00"}[r.Intn(5)]
			if size >= len(tail) {
				copy(data[size-len(tail):], tail)
			}
		}
		ct := []string{"application/json", "application/json; charset=utf-8", "text/plain", ""}[r.Intn(4)]
		hasBody := r.Intn(8) != 0
		chunk := []int{1 << 30, 512, 4097}[r.Intn(3)]
		var fail error
		if r.Intn(6) == 0 {
			fail = errors.New("broken body")
		}
		req := vReq("POST", "/a")
		b := &vBody{data: data, chunk: chunk, err: fail}
		if ct != "" {
			req.Header.Set("Content-Type", ct)
		}
		if hasBody {
			req.Body = b
		} else {
			req.Body = nil
		}
		respond := r.Intn(2) == 0
		rt := NewRouter()
		ran := 0
		var got []byte
		var gerr error
		rt.Use(Logger())
		rt.POST("/a", func(c *Context) {
			ran++
			if c.Request.Body != nil {
				got, gerr = io.ReadAll(c.Request.Body)
				c.Request.Body.Close()
			}
			if respond {
				c.WriteHeader(299)
			}
		}, func(c *Context) { ran += 10 })
		w := newRec()
		desc := fmt.Sprintf("closed %v body logging %v type %q body %v of %d bytes in chunks of %d (error %v)", LogClose, LogHttpBody, ct, hasBody, size, chunk, fail)
		e := rt.Handler()
		if p := vTry(func() { e.ServeHTTP(w, req) }); p != nil {
			vFail(t, "%s: panics: %v", desc, p)
			continue
		}
		want := 11
		if respond {
			want = 1
		}
		if ran != want {
			vFail(t, "%s: later handlers ran %d times, want %d", desc, ran, want)
		}
		if hasBody {
			if !bytes.Equal(got, data) {
				vFail(t, "%s: later handlers read %d bytes", desc, len(got))
			}
			if (gerr != nil) != (fail != nil) {
				vFail(t, "%s: later handlers get the read error %v", desc, gerr)
			}
		}
		if respond != (len(w.codes) == 1) {
			vFail(t, "%s: statuses %v", desc, w.codes)
		}
	}
}
