package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Client-side protocol stubs, written from the engine.io 3 protocol, RFC 6455 and RFC 7230,
// independently of the code under test.

// pkt is an engine.io packet.
type pkt struct {
	bin  bool
	typ  byte // 0 open .. 6 noop
	data []byte
}

func (p pkt) String() string {
	t := "t"
	if p.bin {
		t = "b"
	}
	return fmt.Sprintf("%s%d:%.40q", t, p.typ, p.data)
}

// encodeXHR2 is the binary payload encoding.
func encodeXHR2(ps []pkt) []byte {
	var b bytes.Buffer
	for _, p := range ps {
		if p.bin {
			b.WriteByte(1)
		} else {
			b.WriteByte(0)
		}
		for _, d := range strconv.Itoa(len(p.data) + 1) {
			b.WriteByte(byte(d - '0'))
		}
		b.WriteByte(0xff)
		if p.bin {
			b.WriteByte(p.typ)
		} else {
			b.WriteByte(p.typ + '0')
		}
		b.Write(p.data)
	}
	return b.Bytes()
}

// units is the length of s in UTF-16 code units, the characters of JavaScript.
func units(s string) (n int) {
	for _, r := range s {
		if n++; r > 0xffff {
			n++
		}
	}
	return
}

func octets(s string) int { return len(s) }

func isASCII(b []byte) bool {
	for _, c := range b {
		if c > 0x7f {
			return false
		}
	}
	return true
}

// cut is the index in b after n characters, as count counts them, -1 if there is no such place.
func cut(b []byte, n int, count func(string) int) int {
	if isASCII(b) || count("é") == 2 {
		if n > len(b) {
			return -1
		}
		return n
	}
	i := 0
	for n > 0 {
		_, k := utf8.DecodeRune(b[i:])
		if k == 0 {
			return -1
		}
		n -= count(string(b[i : i+k]))
		i += k
	}
	if n < 0 {
		return -1
	}
	return i
}

// encodeText is the string payload encoding, which counts characters; binary goes as base64.
func encodeText(ps []pkt) []byte {
	var b bytes.Buffer
	for _, p := range ps {
		var s string
		if p.bin {
			s = "b" + string('0'+p.typ) + base64.StdEncoding.EncodeToString(p.data)
		} else {
			s = string('0'+p.typ) + string(p.data)
		}
		fmt.Fprintf(&b, "%d:%s", units(s), s)
	}
	return b.Bytes()
}

func decodeXHR2(b []byte) (ps []pkt, err error) {
	for len(b) > 0 {
		bin := b[0] == 1
		if b[0] > 1 {
			return ps, fmt.Errorf("bad marker %d", b[0])
		}
		i, n := 1, 0
		for ; i < len(b) && b[i] != 0xff; i++ {
			if b[i] > 9 {
				return ps, fmt.Errorf("bad length digit %d", b[i])
			}
			n = n*10 + int(b[i])
			if n > 1<<28 {
				return ps, errors.New("length overflow")
			}
		}
		i++
		if i > len(b) || n < 1 || i+n > len(b) {
			return ps, fmt.Errorf("truncated packet: need %d have %d", n, len(b)-i)
		}
		d := b[i : i+n]
		t := d[0]
		if !bin {
			t -= '0'
		}
		ps = append(ps, pkt{bin, t, append([]byte{}, d[1:]...)})
		b = b[i+n:]
	}
	return ps, nil
}

func decodeText(b []byte, count func(string) int) (ps []pkt, err error) {
	for len(b) > 0 {
		i := bytes.IndexByte(b, ':')
		if i < 1 {
			return ps, fmt.Errorf("no length in %.40q", b)
		}
		n, err := strconv.Atoi(string(b[:i]))
		if err != nil || n < 1 {
			return ps, fmt.Errorf("bad length %.20q of %d", b[:i], len(b))
		}
		k := cut(b[i+1:], n, count)
		if k < 0 {
			return ps, fmt.Errorf("bad length %.20q of %d", b[:i], count(string(b[i+1:])))
		}
		d := b[i+1 : i+1+k]
		p, err := decodeStringPacket(d)
		if err != nil {
			return ps, err
		}
		ps = append(ps, p)
		b = b[i+1+k:]
	}
	return ps, nil
}

func decodeStringPacket(d []byte) (pkt, error) {
	if d[0] == 'b' {
		if len(d) < 2 {
			return pkt{}, errors.New("short binary packet")
		}
		raw, err := base64.StdEncoding.DecodeString(string(d[2:]))
		if err != nil {
			return pkt{}, fmt.Errorf("bad base64 %.40q: %v", d[2:], err)
		}
		return pkt{true, d[1] - '0', raw}, nil
	}
	return pkt{false, d[0] - '0', append([]byte{}, d[1:]...)}, nil
}

// decodeJSONP evaluates ___eio[j]("...");
func decodeJSONP(b []byte, j string) ([]byte, error) {
	pre, post := "___eio["+j+"](", ");"
	s := strings.TrimSpace(string(b))
	if !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, post) {
		return nil, fmt.Errorf("not a jsonp call: %.60q", s)
	}
	arg := strings.TrimSpace(s[len(pre) : len(s)-len(post)])
	var v string
	if err := json.Unmarshal([]byte(arg), &v); err != nil {
		return nil, fmt.Errorf("jsonp argument is not a string literal: %.60q", arg)
	}
	return []byte(v), nil
}

// httpConn is a client HTTP/1.1 connection.
type httpConn struct {
	c  *simConn
	br *bufio.Reader
}

type httpResp struct {
	status int
	header http.Header
	body   []byte
}

var errTruncated = errors.New("stopped sending on purpose")

// do sends a request and reads the response. cut>=0: stop after that many bytes of the request
// and close the connection. started is called once the request is on its way.
func (h *httpConn) do(method, target string, hdr [][2]string, body []byte, cut int) (*httpResp, error) {
	defer hbPub(h.c.peer)
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: sim.example\r\n", method, target)
	for _, kv := range hdr {
		fmt.Fprintf(&b, "%s: %s\r\n", kv[0], kv[1])
	}
	if body != nil || method == "POST" {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.Write(body)
	raw := b.Bytes()
	if cut >= 0 && cut < len(raw) {
		h.c.Write(raw[:cut])
		return nil, errTruncated
	}
	if _, err := h.c.Write(raw); err != nil {
		return nil, err
	}
	resp, err := http.ReadResponse(h.br, &http.Request{Method: method})
	if err != nil {
		return nil, err
	}
	rb, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, fmt.Errorf("body: %w", err)
	}
	return &httpResp{resp.StatusCode, resp.Header, rb}, nil
}

// wsConn is a minimal websocket client.
type wsConn struct {
	c    *simConn
	br   *bufio.Reader
	r    *rng
	frag int  // split messages into frames of at most this many bytes
	srv  bool // this is the server's end
}

func wsAccept(key string) string {
	s := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(s[:])
}

// wsHandshake performs the opening handshake; on refusal it returns the HTTP status.
func wsHandshake(c *simConn, r *rng, target string, hdr [][2]string) (*wsConn, int, error) {
	kb := make([]byte, 16)
	for i := range kb {
		kb[i] = byte(r.next())
	}
	key := base64.StdEncoding.EncodeToString(kb)
	var b bytes.Buffer
	fmt.Fprintf(&b, "GET %s HTTP/1.1\r\nHost: sim.example\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: %s\r\n", target, key)
	for _, kv := range hdr {
		fmt.Fprintf(&b, "%s: %s\r\n", kv[0], kv[1])
	}
	b.WriteString("\r\n")
	if _, err := c.Write(b.Bytes()); err != nil {
		return nil, 0, err
	}
	br := bufio.NewReader(c)
	resp, err := http.ReadResponse(br, &http.Request{Method: "GET"})
	if err != nil {
		return nil, 0, err
	}
	if resp.StatusCode != 101 {
		io.Copy(io.Discard, resp.Body)
		return nil, resp.StatusCode, fmt.Errorf("status %d", resp.StatusCode)
	}
	if resp.Header.Get("Sec-Websocket-Accept") != wsAccept(key) {
		return nil, 101, errors.New("bad Sec-WebSocket-Accept")
	}
	return &wsConn{c: c, br: br, r: r}, 101, nil
}

func (w *wsConn) frame(op byte, fin bool, data []byte) []byte {
	var b bytes.Buffer
	h := op
	if fin {
		h |= 0x80
	}
	b.WriteByte(h)
	m := byte(0x80)
	if w.srv {
		m = 0
	}
	switch n := len(data); {
	case n < 126:
		b.WriteByte(m | byte(n))
	case n < 1<<16:
		b.WriteByte(m | 126)
		binary.Write(&b, binary.BigEndian, uint16(n))
	default:
		b.WriteByte(m | 127)
		binary.Write(&b, binary.BigEndian, uint64(n))
	}
	if w.srv {
		b.Write(data)
		return b.Bytes()
	}
	var mask [4]byte
	binary.LittleEndian.PutUint32(mask[:], uint32(w.r.next()))
	b.Write(mask[:])
	for i, x := range data {
		b.WriteByte(x ^ mask[i&3])
	}
	return b.Bytes()
}

// message builds the frames of one message.
func (w *wsConn) message(bin bool, data []byte) []byte {
	op := byte(1)
	if bin {
		op = 2
	}
	if w.frag <= 0 || len(data) <= 1 {
		return w.frame(op, true, data)
	}
	var out []byte
	for first := true; ; first = false {
		n := 1 + w.r.intn(w.frag)
		if n >= len(data) {
			n = len(data)
		}
		o := byte(0)
		if first {
			o = op
		}
		last := n == len(data)
		out = append(out, w.frame(o, last, data[:n])...)
		data = data[n:]
		if last {
			return out
		}
		if w.r.oneIn(6) {
			out = append(out, w.frame(9, true, []byte("ctl"))...)
		}
	}
}

func encodeWS(p pkt) (bin bool, data []byte) {
	t := p.typ
	if !p.bin {
		t += '0'
	}
	return p.bin, append([]byte{t}, p.data...)
}

func (w *wsConn) sendPkts(ps []pkt) error {
	var b []byte
	for _, p := range ps {
		bin, d := encodeWS(p)
		b = append(b, w.message(bin, d)...)
	}
	_, err := w.c.Write(b)
	return err
}

// read returns the next message; io.EOF on a clean end of the connection.
func (w *wsConn) read() (pkt, error) {
	var msg []byte
	var op byte
	started := false
	for {
		var h [2]byte
		if _, err := io.ReadFull(w.br, h[:]); err != nil {
			return pkt{}, err
		}
		n := uint64(h[1] & 0x7f)
		if (h[1]&0x80 != 0) != w.srv {
			return pkt{}, errors.New("masked server frame or unmasked client frame")
		}
		if h[0]&0x70 != 0 {
			return pkt{}, fmt.Errorf("reserved bits set: %#x", h[0])
		}
		switch n {
		case 126:
			var x [2]byte
			if _, err := io.ReadFull(w.br, x[:]); err != nil {
				return pkt{}, unexp(err)
			}
			n = uint64(binary.BigEndian.Uint16(x[:]))
		case 127:
			var x [8]byte
			if _, err := io.ReadFull(w.br, x[:]); err != nil {
				return pkt{}, unexp(err)
			}
			n = binary.BigEndian.Uint64(x[:])
		}
		if n > 1<<26 {
			return pkt{}, fmt.Errorf("frame of %d bytes", n)
		}
		var mask [4]byte
		if w.srv {
			if _, err := io.ReadFull(w.br, mask[:]); err != nil {
				return pkt{}, unexp(err)
			}
		}
		d := make([]byte, n)
		if _, err := io.ReadFull(w.br, d); err != nil {
			return pkt{}, unexp(err)
		}
		for i := range d {
			d[i] ^= mask[i&3]
		}
		fin, o := h[0]&0x80 != 0, h[0]&0x0f
		switch o {
		case 8:
			return pkt{}, io.EOF
		case 9:
			w.c.Write(w.frame(10, true, d))
			continue
		case 10:
			continue
		case 0:
			if !started {
				return pkt{}, errors.New("continuation without start")
			}
		case 1, 2:
			if started {
				return pkt{}, errors.New("new message inside a fragmented one")
			}
			started, op = true, o
		default:
			return pkt{}, fmt.Errorf("opcode %d", o)
		}
		msg = append(msg, d...)
		if fin {
			if len(msg) < 1 {
				return pkt{}, errors.New("empty message")
			}
			t := msg[0]
			if op == 1 {
				t -= '0'
			}
			return pkt{op == 2, t, msg[1:]}, nil
		}
	}
}

func unexp(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

func (w *wsConn) readTimeout(d time.Duration) (pkt, error) {
	w.c.SetReadDeadline(time.Now().Add(d))
	p, err := w.read()
	w.c.SetReadDeadline(time.Time{})
	return p, err
}

func newBufReader(c *simConn) *bufio.Reader { return bufio.NewReaderSize(c, 4096) }
