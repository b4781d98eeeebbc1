package water

import (
	"crypto/tls"
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC21(t *testing.T) {
	r := vRand()
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	for i := 0; i < vN(30000); i++ {
		req := vReq("GET", "/a")
		set := func(k, v string) string {
			if v != "-" {
				req.Header.Set(k, v)
				return v
			}
			return ""
		}
		real := set("X-Real-IP", pick("-", "-", "", "9.9.9.9", "::1"))
		fwd := set("X-Forwarded-For", pick("-", "", "1.1.1.1", "1.1.1.1, 2.2.2.2", ", 3.3.3.3", "a,b", "a ,b", "a,  b, c", ",x"))
		proto := set("X-Forwarded-Proto", pick("-", "http", "https", "HTTPS", "wss", "", "https,http"))
		ct := set("Content-Type", pick("-", "", "text/html", "text/html; charset=x", "a b", ";x", "application/json;v=1", " text/a", "é/x; y"))
		xrw := set("X-Requested-With", pick("-", "XMLHttpRequest", "xmlhttprequest", ""))
		conn := set("Connection", pick("-", "Upgrade", "keep-alive, upgrade", "keep-alive", "UPGRADE"))
		upg := set("Upgrade", pick("-", "websocket", "WebSocket", "h2c", "websocket2"))
		ua := set("User-Agent", pick("-", "", "ua/1"))
		req.RemoteAddr = pick("10.0.0.1:80", "[::1]:443", "10.0.0.1", "", "[fe80::1%eth0]:9", ":1")
		if r.Intn(2) == 0 {
			req.TLS = &tls.ConnectionState{}
		}
		c := &Context{Request: req}
		desc := fmt.Sprintf("headers %v remote %q tls %v", req.Header, req.RemoteAddr, req.TLS != nil)
		eq := func(n string, got, want interface{}) {
			if !reflect.DeepEqual(got, want) {
				vFail(t, "%s: %s = %#v, want %#v", desc, n, got, want)
			}
		}
		entries := strings.Split(fwd, ",")
		for j := range entries {
			entries[j] = strings.TrimSpace(entries[j])
		}
		ip := real
		if ip == "" {
			ip = entries[0]
		}
		if ip == "" {
			ip = req.RemoteAddr
			if j := strings.LastIndex(ip, ":"); j >= 0 {
				ip = ip[:j]
			}
		}
		eq("RealIp", c.RealIp(), ip)
		var px []string
		if fwd != "" {
			px = entries
		}
		eq("Proxy", c.Proxy(), px)
		pr := "http"
		if req.TLS != nil {
			pr = "https"
		}
		if proto == "http" || proto == "https" {
			pr = proto
		}
		eq("Protocol", c.Protocol(), pr)
		w := ct
		if j := strings.IndexAny(w, " ;"); j >= 0 {
			w = w[:j]
		}
		eq("ContentType", c.ContentType(), w)
		eq("IsAjax", c.IsAjax(), xrw == "XMLHttpRequest")
		eq("IsWebsocket", c.IsWebsocket(), strings.Contains(strings.ToLower(conn), "upgrade") && strings.ToLower(upg) == "websocket")
		eq("UserAgent", c.UserAgent(), ua)
		eq("GetHeader", c.GetHeader("x-forwarded-for"), fwd)
		rec := newRec()
		c.ResponseWriter = rec
		c.SetHeader("x-y", "1")
		c.SetHeader("x-y", "2")
		eq("SetHeader", []string(rec.hdr["X-Y"]), []string{"2"})
	}
}
