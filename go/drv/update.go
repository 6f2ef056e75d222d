package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// updateArea runs updates in a scratch directory against a server of its own. Time is counted in ticks: what
// is written while an operation runs gets the tick of the operation, in the order it was written.
type updateArea struct {
	root, dir string
	loader    *opencorpora.Loader
	vers      []version
	now       int
}

type version struct {
	src, xml []byte
	words    []string
}

// The clock of a history: how long a tick is, and how far into their tick files are written. What the server tells
// is always told in whole seconds.
var (
	started  = time.Now().Add(-time.Hour)
	tick     time.Duration
	fine     time.Duration
	tickBase time.Time
)

func setClock(c Rec) {
	tick, fine = time.Duration(c.num("tick", 10))*time.Second, time.Duration(c.num("fine", 0))
	tickBase = started.Add(-15000 * tick).Truncate(time.Second)
	if days := c.num("ahead", 0); days != 0 { // by the clock we go by, all of it is still to come
		tickBase = started.Add(time.Duration(days) * 24 * time.Hour).Truncate(time.Second)
	}
	if zone := c.num("zone", 0); zone != 0 {
		time.Local = time.FixedZone("ZONE", zone)
	}
}

func init() { setClock(Rec{}) }

func at(t int) time.Time { return tickBase.Add(time.Duration(t) * tick) }

func written(t int) time.Time { return at(t).Add(fine) }

// answers is what the server says.
type answers struct {
	sync.Mutex
	srv         Rec
	vers        []version
	heads, gets int
}

var (
	server  answers
	baseURL string
	once    sync.Once
)

func startServer() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	baseURL = "http://" + l.Addr().String()
	proxy, _ := url.Parse(baseURL)
	http.DefaultTransport.(*http.Transport).Proxy = func(*http.Request) (*url.URL, error) { return proxy, nil }
	go func() { _ = http.Serve(l, http.HandlerFunc(server.answer)) }()
}

func drop(w http.ResponseWriter, say string) {
	conn, buf, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	_, _ = buf.WriteString(say)
	_ = buf.Flush()
	_ = conn.Close()
}

func (s *answers) answer(w http.ResponseWriter, req *http.Request) {
	s.Lock()
	defer s.Unlock()
	srv := s.srv
	get := req.Method == http.MethodGet
	if srv.flag("redir") && !strings.HasSuffix(req.URL.Path, "/moved") {
		http.Redirect(w, req, "http://opencorpora.org/moved", http.StatusFound)
		return
	}
	what := srv.num("head", 200)
	if get {
		s.gets++
		what = srv.num("get", 200)
	} else {
		s.heads++
		if list := srv.ints("heads"); len(list) > 0 { // each request its own answer
			what = list[least(s.heads, len(list))-1]
		}
	}
	switch what {
	case -1: // hangs up
		drop(w, "")
		return
	case -2: // says something else
		drop(w, "220 ready\r\n")
		return
	}
	if what != 200 {
		w.Header().Set("Last-Modified", at(999999).UTC().Format(http.TimeFormat))
		w.WriteHeader(what)
		if get && what != 204 && what != 304 { // these two have no body
			_, _ = w.Write([]byte("<html>no</html>"))
		}
		return
	}
	switch lm := srv.num("lm", -1); lm {
	case -1:
	case -2:
		w.Header().Set("Last-Modified", srv.str("garbage"))
	default:
		w.Header().Set("Last-Modified", at(lm).UTC().Format(http.TimeFormat))
	}
	if !get {
		w.WriteHeader(what)
		return
	}
	body := s.vers[srv.num("v", 1)-1].src
	if then, ok := srv["then"].(map[string]any); ok { // something newer is published meanwhile
		s.srv = Rec(then)
	}
	cut := srv.num("cut", -1)
	if cut < 0 {
		if portion := srv.num("portion", 0); portion > 0 {
			w.Header().Set("Content-Length", fmt.Sprint(len(body)))
			for len(body) > 0 {
				n := least(portion, len(body))
				_, _ = w.Write(body[:n])
				w.(http.Flusher).Flush()
				body = body[n:]
			}
			return
		}
		_, _ = w.Write(body)
		return
	}
	part := body[:len(body)*cut/1000]
	head := "HTTP/1.1 200 OK\r\nContent-Type: application/x-bzip2\r\n"
	if srv.flag("chunked") {
		head += "Transfer-Encoding: chunked\r\n\r\n"
		if len(part) > 0 {
			head += fmt.Sprintf("%x\r\n%s\r\n", len(part), part)
		}
	} else {
		length := len(body)
		if length == 0 && cut < 1000 { // of nothing, nothing can be missing
			length = 1
		}
		head += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", length, part)
	}
	drop(w, head)
}

func init() { areas["update"] = func() area { return &updateArea{} } }

func (a *updateArea) reset(rec Rec) {
	once.Do(startServer)
	clock, _ := rec["clock"].(map[string]any)
	setClock(Rec(clock))
	root, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "update-")
	if err != nil {
		panic(err)
	}
	if a.root, err = filepath.EvalSymlinks(root); err != nil {
		panic(err)
	}
	a.dir = filepath.Join(a.root, ".data", "opencorpora")
	if !rec.flag("nodir") {
		if err = os.MkdirAll(a.dir, 0o755); err != nil {
			panic(err)
		}
	}
	a.loader = opencorpora.NewLoader(a.dir)
	list, _ := rec["vers"].([]any)
	for _, x := range list {
		m, _ := x.(map[string]any)
		v := Rec(m)
		src, _ := base64.StdEncoding.DecodeString(v.str("src"))
		xml, _ := base64.StdEncoding.DecodeString(v.str("xml"))
		if !v.flag("u") {
			xml = nil
		}
		words := make([]string, 0)
		for _, w := range v.lists("words") {
			words = append(words, string(toRunes(w)))
		}
		sort.Strings(words)
		a.vers = append(a.vers, version{src, xml, words})
		delete(m, "src")
		delete(m, "xml")
		delete(m, "words")
	}
	server.Lock()
	server.vers, server.srv = a.vers, Rec{"head": float64(-1), "get": float64(-1)}
	server.Unlock()
	rec["res"] = "ok"
}

var dataFiles = map[string]string{
	"src": opencorpora.LocalSourceFilename, "xml": opencorpora.LocalUnpackedFilename, "dat": opencorpora.LocalCompiledFilename,
}

func (a *updateArea) path(f string) string { return filepath.Join(a.dir, dataFiles[f]) }

// indexWords loads the compiled dictionary and gives the texts of its nodes; none if one cannot be had.
func indexWords(loader *opencorpora.Loader) (words []string, err error) {
	defer func() {
		if p := recover(); p != nil {
			words, err = nil, fmt.Errorf("panic: %v", p)
		}
	}()
	idx, err := loader.LoadIndex()
	if err != nil {
		return nil, err
	}
	for id := 1; id <= idx.NodesCount(); id++ {
		node, err := idx.Get(dag.ID(id))
		if err != nil {
			return nil, nil
		}
		words = append(words, node.Word())
	}
	sort.Strings(words)
	return words, nil
}

// compiled gives the version of the compiled dictionary, 0 if it is none of them.
func (a *updateArea) compiled() (v int, err error) {
	words, err := indexWords(a.loader)
	if err != nil {
		return 0, err
	}
	return a.versionOf(words), nil
}

func (a *updateArea) versionOf(words []string) int {
	for i, ver := range a.vers {
		if ver.xml != nil && len(ver.words) > 0 && strings.Join(words, "\n") == strings.Join(ver.words, "\n") {
			return i + 1
		}
	}
	return 0
}

func (a *updateArea) fileState(f string) (v int, mod time.Time, ok bool) {
	info, err := os.Stat(a.path(f))
	if err != nil {
		return 0, mod, false
	}
	if info.IsDir() {
		return -1, info.ModTime(), true
	}
	if f == "dat" {
		v, _ = a.compiled()
		return v, info.ModTime(), true
	}
	data, err := os.ReadFile(a.path(f))
	if err != nil {
		return 0, info.ModTime(), true
	}
	for i, ver := range a.vers {
		if want := map[string][]byte{"src": ver.src, "xml": ver.xml}[f]; want != nil && bytes.Equal(data, want) {
			return i + 1, info.ModTime(), true
		}
	}
	return 0, info.ModTime(), true
}

// stamp gives files written meanwhile the tick of the operation, and tells what all of them are like.
func (a *updateArea) stamp(rec Rec) {
	type found struct {
		f   string
		mod time.Time
	}
	var fresh []found
	after := Rec{}
	for _, f := range []string{"src", "xml", "dat"} {
		v, mod, ok := a.fileState(f)
		if !ok {
			after[f] = []int{-2, 0}
			if _, err := os.Stat(a.path(f)); err != nil && !os.IsNotExist(err) {
				after[f] = []int{-3, 0}
			}
			continue
		}
		if mod.After(started) && mod.Before(started.Add(24*time.Hour)) { // real time
			fresh = append(fresh, found{f, mod})
		}
		after[f] = []int{v, int(mod.Sub(tickBase) / tick)}
	}
	sort.Slice(fresh, func(i, j int) bool { return fresh[i].mod.Before(fresh[j].mod) })
	rank := 0
	for i, x := range fresh {
		if i == 0 || !x.mod.Equal(fresh[i-1].mod) {
			rank++
		}
		t := a.now + rank
		if err := os.Chtimes(a.path(x.f), written(t), written(t)); err != nil {
			panic(err)
		}
		after[x.f] = []int{after[x.f].([]int)[0], t}
	}
	rec["after"] = after
	server.Lock()
	rec["heads"], rec["gets"] = server.heads, server.gets
	server.Unlock()
	// what interrupted updates leave aside is nothing to later ones, whatever its age
	if list, err := os.ReadDir(a.dir); err == nil {
		rec["aside"] = 0
		for _, e := range list {
			known := false
			for _, n := range dataFiles {
				known = known || n == e.Name()
			}
			if !known {
				rec["aside"] = rec["aside"].(int) + 1
			}
		}
	}
}

func (a *updateArea) do(rec Rec) {
	a.now = rec.num("now", a.now)
	server.Lock()
	server.heads, server.gets = 0, 0
	server.Unlock()
	rec["res"] = "ok"
	switch rec.str("op") {
	case "put":
		f, v := rec.str("f"), rec.num("v", 0)
		_ = os.RemoveAll(a.path(f))
		if err := os.MkdirAll(a.dir, 0o755); err != nil {
			panic(err)
		}
		var err error
		switch {
		case v == -1:
			err = os.Mkdir(a.path(f), 0o755)
		case v == -3: // a link to itself
			if err = os.Symlink(a.path(f), a.path(f)); err == nil {
				return
			}
		case f == "src":
			err = os.WriteFile(a.path(f), a.vers[v-1].src, 0o644)
		case f == "xml":
			err = os.WriteFile(a.path(f), a.vers[v-1].xml, 0o644)
		default:
			source := filepath.Join(a.root, "put.xml")
			if err = os.WriteFile(source, a.vers[v-1].xml, 0o644); err == nil {
				if rec.flag("broken") {
					err = os.WriteFile(a.path(f), []byte("not an index"), 0o644)
				} else {
					err = a.loader.ParseUpdate(source, a.path(f))
				}
			}
		}
		if err != nil {
			panic(err)
		}
		t := rec.num("t", 1)
		if err = os.Chtimes(a.path(f), written(t), written(t)); err != nil {
			panic(err)
		}
	case "remove":
		_ = os.RemoveAll(a.path(rec.str("f")))
	case "dangle": // a link to nowhere
		_ = os.RemoveAll(a.path(rec.str("f")))
		if err := os.MkdirAll(a.dir, 0o755); err != nil {
			panic(err)
		}
		if err := os.Symlink(filepath.Join(a.dir, "nowhere"), a.path(rec.str("f"))); err != nil {
			panic(err)
		}
	case "aside": // something under a name like those used by updates while writing
		for _, end := range []string{".tmp", ".0.tmp"} {
			if err := os.WriteFile(a.path(rec.str("f"))+end, []byte("left over"), 0o644); err != nil {
				panic(err)
			}
		}
	case "server":
		srv := Rec{}
		for k, v := range rec {
			srv[k] = v
		}
		server.Lock()
		server.srv = srv
		server.Unlock()
	case "required":
		val, err := a.loader.IsUpdateRequired()
		rec["res"], rec["val"] = result(err), val
		a.stamp(rec)
	case "exists":
		rec["src"], rec["xml"] = a.loader.IsDownloadExists(), a.loader.IsUnpackedExists()
	case "download":
		val, err := a.loader.DownloadUpdate()
		rec["res"], rec["val"] = result(err), val
		a.stamp(rec)
	case "unpack":
		rec["res"] = result(a.loader.UnpackUpdate())
		a.stamp(rec)
	case "update":
		a.update(rec)
		a.stamp(rec)
	case "race":
		a.race(rec)
	case "together":
		a.together(rec)
	case "load":
		v, err := a.compiled()
		rec["res"], rec["v"] = result(err), v
		if err != nil {
			rec["msg"] = short(err.Error())
		}
	default:
		panic("unknown operation")
	}
}

func (a *updateArea) update(rec Rec) {
	if rec.str("via") == "lib" {
		err := a.loader.Update(rec.flag("force"))
		rec["res"] = result(err)
		if err != nil {
			rec["msg"] = short(err.Error())
		}
		return
	}
	argv := []string{os.Getenv("VERIF_CMD_UPDATE"), fmt.Sprintf("-f=%v", rec.flag("force"))}
	env := []string{"http_proxy=" + baseURL, "HTTP_PROXY=" + baseURL, "PATH=/usr/bin:/bin", "HOME=" + a.root, "GOMAXPROCS=2"}
	m, _ := rec["fault"].(map[string]any)
	fr := Rec(m)
	f := fault{kind: fr.str("kind"), n: fr.num("n", 0), err: syscall.Errno(fr.num("errno", 28))}
	res, err := underFault(argv, env, a.root, a.root, f, 15*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, "child:", err)
		os.Exit(3)
	}
	rec["fired"], rec["calls"] = res.fired, len(res.calls)
	if rec.flag("log") {
		rec["log"] = res.calls
	}
	switch {
	case res.killed && res.fired && f.kind == "kill":
		rec["res"] = "killed"
	case res.killed:
		rec["res"] = "hang"
	case res.exit == 0:
		rec["res"] = "ok"
	case res.exit == 1:
		rec["res"] = "err"
	default:
		rec["res"] = "died"
	}
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}
