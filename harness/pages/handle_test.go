package pages

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"html"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"

	"go.opencensus.io/trace"
	. "go.opencensus.io/verif/prop"
	"go.opencensus.io/zpages"
	"pgregory.net/rapid"
)

// HCase is a place for the pages and a name of a span on them.
type HCase struct {
	Parts    []S // of the path
	Slash    bool
	Old      bool // the deprecated Handler
	Default  bool // http.DefaultServeMux
	Span     S
	Kind     int
	Subtype  int
	HeadOnly bool
}

func genHandle(t *rapid.T) HCase {
	return HCase{
		Parts: Slice(t, "parts", 0, 3, func(t *rapid.T) S {
			return Pick[S](t, "part", "debug", "a", "b.c", "public", "tracez", "rpcz", "z-1", "x=y", "~", "a+b")
		}),
		Slash: Bool(t, "slash"), Old: Int(t, "old", 0, 9) == 0, Default: Int(t, "default", 0, 9) == 0,
		Span: Pick[S](t, "span", "plain", "a b", "a+b", "a&b=c", "a#b", "a%41", "é", `"q"`, "<i>", "?x", "a;b", "/s/t"), Kind: Int(t, "kind", 0, 2), Subtype: Int(t, "sub", 0, 3), HeadOnly: Bool(t, "head"),
	}
}

var (
	hrefRE = regexp.MustCompile(`(?:href|src)="([^"]*)"`)
	// places where the default mux has the pages already
	placed = map[string]bool{}
	cssSum string
)

// execHandle follows everything of the process' own that the pages link to.
func execHandle(cx *Ctx, c HCase) error {
	prefix := "/"
	for _, p := range c.Parts {
		prefix += string(p) + "/"
	}
	at := prefix
	if !c.Slash && len(c.Parts) > 0 {
		at = strings.TrimSuffix(prefix, "/")
	}
	var h http.Handler
	switch {
	case c.Old:
		h, prefix = zpages.Handler, "/"
	case c.Default:
		h = http.DefaultServeMux
		prefix, at = "/verif"+prefix, "/verif"+at
		if !placed[prefix] {
			placed[prefix] = true
			zpages.Handle(nil, at)
		}
	default:
		m := http.NewServeMux()
		zpages.Handle(m, at)
		h = m
	}
	_, s := trace.StartSpan(context.Background(), string(c.Span), trace.WithSampler(trace.AlwaysSample()))
	defer s.End()
	ask := func(u string) (*httptest.ResponseRecorder, error) {
		method := "GET"
		if c.HeadOnly && strings.Contains(u, "/public/") {
			method = "HEAD"
		}
		w := httptest.NewRecorder()
		h.ServeHTTP(w, httptest.NewRequest(method, u, nil))
		if w.Code != 200 {
			return nil, Errf("the pages are at %q: %s %s gives status %d", at, method, u, w.Code)
		}
		return w, nil
	}
	q := url.Values{"zspanname": {string(c.Span)}, "ztype": {string(rune('0' + c.Kind))}, "zsubtype": {string(rune('0' + c.Subtype))}}
	done := map[string]bool{}
	found := false
	for _, page := range []string{prefix + "rpcz", prefix + "tracez", prefix + "tracez?" + q.Encode()} {
		w, err := ask(page)
		if err != nil {
			return err
		}
		if ct := w.Header().Get("Content-Type"); !strings.HasPrefix(ct, "text/html") {
			return Errf("%s is %q", page, ct)
		}
		base, err := url.Parse(page)
		if err != nil {
			return err
		}
		for _, m := range hrefRE.FindAllStringSubmatch(w.Body.String(), -1) {
			ref, err := url.Parse(html.UnescapeString(m[1]))
			if err != nil {
				return Errf("%s links to %q: %v", page, m[1], err)
			}
			if ref.Host != "" {
				continue
			}
			to := base.ResolveReference(ref)
			if strings.HasSuffix(to.Path, ".css") {
				w, err := ask(to.String())
				if err != nil {
					return err
				}
				if ct := w.Header().Get("Content-Type"); !strings.HasPrefix(ct, "text/css") {
					return Errf("%s is %q", to, ct)
				}
				cx.Class("style")
				continue
			}
			if to.Query().Get("zspanname") != string(c.Span) || done[to.String()] {
				continue
			}
			done[to.String()] = true
			w, err := ask(to.String())
			if err != nil {
				return err
			}
			if !strings.Contains(w.Body.String(), "Span Name: ") {
				return Errf("%s shows no list", to)
			}
			found = true
		}
	}
	if !found {
		return Errf("nothing links to the spans %q", c.Span)
	}
	cx.ClassIf(c.Old, "Handler")
	cx.ClassIf(c.Default, "default mux")
	cx.NonTrivial(len(c.Parts) > 0)
	return nil
}

func TestZ04(t *testing.T) {
	Check(t, "Z04", "handle", Opts{Quick: 600, Thorough: 10000,
		Rule: "the pages at prefixes of 0-3 parts, with and without a final slash, on a mux of their own, the default mux and by the deprecated Handler, with a running span of an odd name: every page, its style sheet and its links to that span must be served; non-trivial with a prefix"},
		genHandle, execHandle)
	Check(t, "Z04", "query", Opts{Quick: 1200, Thorough: 30000,
		Rule: "queries of up to five parameters, of any order, number, form and encoding, in the address or posted, to the two pages while an active, a finished and a failed span are there: the answer must be the whole page with the list the parameters name; non-trivial with a span's name"},
		genQuery, execQuery)
}

// QCase is a request for a page.
type QCase struct {
	Page   string
	Params [][2]S // written out
	Form   [][2]S // posted
	Method string
}

var querySpans sync.Once

func genQuery(t *rapid.T) QCase {
	param := func(t *rapid.T) [2]S {
		k := Pick[S](t, "key", "zspanname", "zspanname", "ztype", "ztype", "zsubtype", "zsubtype", "ZTYPE", "", "z%74ype", "%zz", "x;y")
		v := Pick[S](t, "val", "q0", "q1", "q2", "q3", "q%31", "%3Cb%3E", "a+b", "0", "1", "2", "3", "8", "9", "16", "-1", "+2", "%2B2", " 1", "01", "1e1", "0x1", "2147483653", "4294967301", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999", "", "%zz", "%")
		if k == "zspanname" && Bool(t, "there") {
			v = Pick[S](t, "name", "q0", "q1", "q2")
		}
		return [2]S{k, v}
	}
	c := QCase{Page: Pick(t, "page", "tracez", "tracez", "tracez", "rpcz"), Params: Slice(t, "params", 0, 5, param), Method: Pick(t, "method", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "BREW")}
	if c.Method == "POST" || c.Method == "PUT" {
		c.Form = Slice(t, "form", 0, 4, param)
	}
	return c
}

func execQuery(cx *Ctx, c QCase) error {
	querySpans.Do(func() {
		for i, code := range []int32{0, 0, 5} {
			_, s := trace.StartSpan(context.Background(), fmt.Sprint("q", i), trace.WithSampler(trace.AlwaysSample()))
			s.Annotate(nil, "the span's own words")
			if i > 0 {
				s.SetStatus(trace.Status{Code: code, Message: "m"})
				s.End()
			}
		}
	})
	encode := func(l [][2]S) string {
		var q []string
		for _, p := range l {
			q = append(q, string(p[0])+"="+strings.ReplaceAll(string(p[1]), " ", "%20"))
		}
		return strings.Join(q, "&")
	}
	r := httptest.NewRequest(c.Method, "http://h/debug/"+c.Page, strings.NewReader(encode(c.Form)))
	r.URL.RawQuery = encode(c.Params)
	if len(c.Form) > 0 {
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	w := httptest.NewRecorder()
	mux.ServeHTTP(w, r)
	if w.Code != 200 || !strings.HasPrefix(w.Header().Get("Content-Type"), "text/html") {
		return Errf("status %d, type %q", w.Code, w.Header().Get("Content-Type"))
	}
	page := w.Body.String()
	if !strings.HasSuffix(strings.TrimSpace(page), "</html>") {
		return Errf("the page is not whole: %q", page)
	}
	if c.Page == "rpcz" {
		return nil
	}
	// what the page is asked for: the first of each parameter, what is posted
	// before what is in the address, 0 for what is not a number
	vals := url.Values{}
	for _, l := range []string{encode(c.Form), encode(c.Params)} {
		q, _ := url.ParseQuery(l) // which gives what can be understood
		for k, v := range q {
			vals[k] = append(vals[k], v...)
		}
	}
	num := func(k string) int {
		n, err := strconv.Atoi(vals.Get(k))
		if err != nil && !errors.Is(err, strconv.ErrRange) {
			return 0
		}
		return n
	}
	name, typ, sub := vals.Get("zspanname"), num("ztype"), num("zsubtype")
	m := numRE.FindStringSubmatch(page)
	if (m != nil) != (name != "") {
		return Errf("asked for spans of %q the page has a list: %v", name, m != nil)
	}
	if m == nil {
		return nil
	}
	if html.UnescapeString(m[1]) != name {
		return Errf("asked for spans of %q the page has those of %q", name, m[1])
	}
	has := fmt.Sprint(len(idRE.FindAllString(page, -1)))
	if m[2] != has || strings.Count(page, "the span&#39;s own words") != len(idRE.FindAllString(page, -1)) {
		return Errf("the page counts %s spans and shows %s", m[2], has)
	}
	want := "?"
	switch {
	case typ == 0:
		want = map[bool]string{true: "1", false: "0"}[name == "q0"]
	case typ == 1 && sub >= 0 && sub <= 8: // by latency
		if want = "0"; name == "q1" {
			want = "?" // in one of them
		}
	case typ == 2 && int(int32(sub)) == sub && sub >= 0: // by code
		want = map[bool]string{true: "1", false: "0"}[name == "q2" && (sub == 0 || sub == 5)]
	}
	if want != "?" && m[2] != want {
		return Errf("the list of type %d, %d of %q has %s spans, want %s", typ, sub, name, m[2], want)
	}
	var b bytes.Buffer
	zpages.WriteHTMLTracezPage(&b, name, typ, sub)
	if b.String() != page {
		return Errf("the page for type %d, %d of %q is\n%s\nnot\n%s", typ, sub, name, page, b.String())
	}
	cx.ClassIf(m[2] != "0", "list")
	cx.ClassIf(len(c.Form) > 0, "posted")
	cx.NonTrivial(true)
	return nil
}
