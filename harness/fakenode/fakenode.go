// Package fakenode is a stand-in for the Bitcoin node, behind the HTTP transports of the process.
package fakenode

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/chaingen"

	"github.com/KitchenMishap/pudding-shed/corereader2"
)

// How the node answers in one phase.
type Timing struct {
	Kind  int     `json:"k"`           // 0 at once, 1 random delays, 2 one slow block, 3 later blocks first, 4 a slow block every so often
	Seed  int     `json:"s,omitempty"` // of the delays
	Which int     `json:"w,omitempty"` // the slow block
	Fails []Fault `json:"f,omitempty"`
	Heads []Head  `json:"h,omitempty"`
	Wrong []Swap  `json:"x,omitempty"`
	Die   int     `json:"d,omitempty"` // the process ends at this request, counted from one
}

// Head makes a request for headers, counted from zero, fail.
type Head struct {
	Nth  int `json:"n"`
	Kind int `json:"k"` // 0 no connection, 1 status 503, 2 connection lost on the way, 3 fewer headers, 4 none
	Cut  int `json:"c"` // bytes that arrive
}

// Swap makes a block be answered by another one, or by part of itself.
type Swap struct {
	Block int `json:"b"`
	By    int `json:"y"`           // the block given instead
	Cut   int `json:"c,omitempty"` // eighths of it that are given, if not zero
}

// Fault makes the first attempts to get a block fail.
type Fault struct {
	Block int   `json:"b"`
	Kinds []int `json:"k"` // of each attempt that fails: 0 no connection, 1 status 503, 2 connection lost half way, 3 status 404, 4 truncated JSON, 5.. connection lost so many (less four) bytes before the end
}

// Node serves a chain.
type Node struct {
	ch     *chaingen.Chain
	by     map[string]int
	tm     Timing
	mu     sync.Mutex
	tries  map[int]int
	stray  []string
	active atomic.Int64 // requests begun
	asked  atomic.Int64
	heads  atomic.Int64
	open   atomic.Int64
	hurt   atomic.Bool
}

func New(ch *chaingen.Chain, tm Timing) *Node {
	n := &Node{ch: ch, by: map[string]int{}, tm: tm, tries: map[int]int{}}
	for i, b := range ch.Blocks {
		n.by[chaingen.Rev(b.Hash)] = i
	}
	return n
}

// held is an answer that has neither been read to its end nor closed.
type held struct {
	r    io.Reader
	once sync.Once
	n    *atomic.Int64
}

func (h *held) done() { h.once.Do(func() { h.n.Add(-1) }) }

func (h *held) Read(p []byte) (int, error) {
	n, err := h.r.Read(p)
	if err != nil {
		h.done()
	}
	return n, err
}

func (h *held) Close() error {
	h.done()
	return nil
}

func answer(status int, body io.Reader) *http.Response {
	return &http.Response{StatusCode: status, Status: strconv.Itoa(status) + " " + http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: io.NopCloser(body), ContentLength: -1}
}

// lost gives some bytes and then an error.
type lost struct{ r io.Reader }

func (l *lost) Read(p []byte) (int, error) {
	n, err := l.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (n *Node) note(s string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.stray) < 5 {
		n.stray = append(n.stray, s)
	}
}

func (n *Node) RoundTrip(req *http.Request) (*http.Response, error) {
	resp, err := n.serve(req)
	if resp != nil {
		resp.Request = req
		n.open.Add(1)
		resp.Body = &held{r: resp.Body, n: &n.open}
	}
	return resp, err
}

func (n *Node) serve(req *http.Request) (*http.Response, error) {
	if k := n.asked.Add(1); n.tm.Die > 0 && k == int64(n.tm.Die) {
		os.Exit(Died)
	}
	parts := strings.Split(strings.Trim(req.URL.Path, "/"), "/")
	if req.Method != "GET" || req.URL.Host != "127.0.0.1:8332" || len(parts) < 3 || parts[0] != "rest" {
		n.note(req.Method + " " + req.URL.String())
		return answer(404, strings.NewReader("not found")), nil
	}
	name, ext, _ := strings.Cut(parts[len(parts)-1], ".")
	at, known := n.by[name]
	switch {
	case parts[1] == "headers" && ext == "bin" && known:
		count := req.URL.Query().Get("count")
		if len(parts) == 4 {
			count = parts[2]
		}
		k, err := strconv.Atoi(count)
		if err != nil || k < 1 || k > 2000 {
			return answer(400, strings.NewReader("Header count is invalid or out of acceptable range (1-2000)")), nil
		}
		var b bytes.Buffer
		for i := at; i < len(n.ch.Blocks) && i < at+k; i++ {
			b.Write(n.ch.Blocks[i].Raw[:80])
		}
		nth := int(n.heads.Add(1)) - 1
		for _, f := range n.tm.Heads {
			if f.Nth != nth {
				continue
			}
			n.hurt.Store(true)
			cut := min(b.Len(), f.Cut)
			switch f.Kind {
			case 0:
				return nil, errors.New("connection refused")
			case 1:
				return answer(503, strings.NewReader("Work queue depth exceeded")), nil
			case 2:
				return answer(200, &lost{bytes.NewReader(b.Bytes()[:cut])}), nil
			case 3:
				return answer(200, bytes.NewReader(b.Bytes()[:cut/80*80])), nil
			default:
				return answer(200, strings.NewReader("")), nil
			}
		}
		return answer(200, &b), nil
	case parts[1] == "block" && len(parts) == 3 && known && (ext == "bin" || ext == "json"):
		return n.block(at, ext == "json")
	}
	n.note(req.Method + " " + req.URL.String())
	return answer(404, strings.NewReader("not found")), nil
}

func (n *Node) body(at int, json bool) []byte {
	b := n.ch.Blocks[at]
	if !json {
		return b.Raw
	}
	var next *chaingen.Block
	if at+1 < len(n.ch.Blocks) {
		next = n.ch.Blocks[at+1]
	}
	return []byte(b.JSON(next))
}

func (n *Node) block(at int, json bool) (*http.Response, error) {
	begun := n.active.Add(1)
	n.mu.Lock()
	try := n.tries[at]
	n.tries[at]++
	n.mu.Unlock()
	n.wait(at, begun)
	for _, f := range n.tm.Fails {
		if f.Block != at || try >= len(f.Kinds) {
			continue
		}
		switch k := f.Kinds[try]; {
		case k == 0:
			return nil, errors.New("connection refused")
		case k == 1:
			return answer(503, strings.NewReader("Work queue depth exceeded")), nil
		case k == 3:
			return answer(404, strings.NewReader(chaingen.Rev(n.ch.Blocks[at].Hash)+" not found")), nil
		case k == 4 && json:
			b := n.body(at, true)
			return answer(200, bytes.NewReader(b[:len(b)*(1+at%7)/8])), nil
		default:
			b := n.body(at, json)
			end := len(b) * (1 + at%7) / 8
			if k > 4 {
				end = max(0, len(b)-(k-4))
			}
			return answer(200, &lost{bytes.NewReader(b[:end])}), nil
		}
	}
	for _, x := range n.tm.Wrong {
		if x.Block == at && x.By < len(n.ch.Blocks) && (x.By != at || x.Cut > 0) {
			n.hurt.Store(true)
			b := n.body(x.By, json)
			if x.Cut > 0 {
				b = b[:len(b)*x.Cut/8]
			}
			return answer(200, bytes.NewReader(b)), nil
		}
	}
	return answer(200, bytes.NewReader(n.body(at, json))), nil
}

func mix(a, b int) int {
	x := uint64(a)*0x9E3779B97F4A7C15 + uint64(b)*0xBF58476D1CE4E5B9 + 0x1234567
	x ^= x >> 29
	x *= 0x94D049BB133111EB
	return int(x >> 33)
}

// wait delays the answer.
func (n *Node) wait(at int, begun int64) {
	hold := func(more int64, limit time.Duration) {
		end := time.Now().Add(limit)
		for n.active.Load() < begun+more && time.Now().Before(end) {
			time.Sleep(200 * time.Microsecond)
		}
	}
	switch n.tm.Kind {
	case 1:
		if r := mix(n.tm.Seed, at) % 8; r > 3 {
			time.Sleep(time.Duration(r*r*20) * time.Microsecond)
		}
	case 2: // until many others have come and gone, or it seems that no more come
		if at == n.tm.Which {
			hold(400, 60*time.Millisecond)
		}
	case 3:
		time.Sleep(time.Duration(5-at%5) * 150 * time.Microsecond)
	case 4:
		if mix(n.tm.Seed, at)%23 == 0 {
			hold(int64(5+mix(n.tm.Seed, at+1000000)%150), 8*time.Millisecond)
		}
	}
}

// The process's transports lead to the node of the moment.
var current atomic.Pointer[Node]

type dispatch struct{}

func (dispatch) RoundTrip(r *http.Request) (*http.Response, error) {
	return current.Load().RoundTrip(r)
}

func init() {
	if t, ok := http.DefaultTransport.(*http.Transport); ok {
		t.RegisterProtocol("http", dispatch{})
	}
	if t, ok := corereader2.TheOneAndOnlyClient.Transport.(*http.Transport); ok && corereader2.TheOneAndOnlyClient.Transport != http.DefaultTransport {
		t.RegisterProtocol("http", dispatch{})
	} else {
		corereader2.TheOneAndOnlyClient.Transport = dispatch{}
	}
}

// Died is the exit status of a process that was told to end at a request.
const Died = 77

// Asked is the number of requests made.
func (n *Node) Asked() int { return int(n.asked.Load()) }

// Held is the number of answers that have neither been read to their end nor
// closed, which would keep their connections.
func (n *Node) Held() int { return int(n.open.Load()) }

// Hurt reports whether an answer was not a node's usual one.
func (n *Node) Hurt() bool { return n.hurt.Load() }

// Serve makes n the node of the moment.
func Serve(n *Node) { current.Store(n) }

// Stray lists what was asked for that the node does not have.
func (n *Node) Stray() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]string{}, n.stray...)
}
