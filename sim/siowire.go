package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// The socket.io protocol (revision 4) and its msgpack variant, written from their descriptions and
// independent of the code under test.

const (
	sConnect = iota
	sDisconnect
	sEvent
	sAck
	sError
	sBinEvent
	sBinAck
)

type sioPkt struct {
	typ  byte
	nsp  string
	id   int64 // -1: none
	args []interface{}
	data interface{} // of packets other than events and acks
	over bool        // a text packet with an id: add 2^64 to it
	form int         // how a text packet without data names its namespace: 1 without a comma, 2 with a query, 3 both
}

func (p *sioPkt) String() string {
	return fmt.Sprintf("type %d nsp %s id %d %s", p.typ, p.nsp, p.id, canon(p.args))
}

// canon is an unambiguous rendering of decoded arguments; numbers compare by value.
// plain turns a value of a less usual type into one of the usual types.
func plain(v interface{}) (interface{}, bool) {
	switch r := reflect.ValueOf(v); r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
		return r.Int(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(r.Uint()), true
	case reflect.Float32:
		return r.Float(), true
	case reflect.Array, reflect.Slice:
		l := make([]interface{}, r.Len())
		for i := range l {
			l[i] = r.Index(i).Interface()
		}
		return l, true
	}
	return nil, false
}

func canon(v interface{}) string {
	switch t := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(t)
	case string:
		return strconv.Quote(t)
	case []byte:
		if len(t) > 24 {
			return fmt.Sprintf("bin(%d,%x)", len(t), hashStr(string(t)))
		}
		return fmt.Sprintf("bin(%x)", t)
	case json.Number:
		if i, err := strconv.ParseInt(string(t), 10, 64); err == nil {
			return strconv.FormatInt(i, 10)
		}
		f, _ := t.Float64()
		return canon(f)
	case int:
		return strconv.Itoa(t)
	case int64:
		return strconv.FormatInt(t, 10)
	case uint64:
		return strconv.FormatUint(t, 10)
	case float64:
		if t == math.Trunc(t) && math.Abs(t) < 1e15 {
			return strconv.FormatInt(int64(t), 10)
		}
		return strconv.FormatFloat(t, 'g', -1, 64)
	case []string:
		var s []string
		for _, x := range t {
			s = append(s, canon(x))
		}
		return "[" + strings.Join(s, ",") + "]"
	case []interface{}:
		var s []string
		for _, x := range t {
			s = append(s, canon(x))
		}
		return "[" + strings.Join(s, ",") + "]"
	case map[string]string:
		m := map[string]interface{}{}
		for k, x := range t {
			m[k] = x
		}
		return canon(m)
	case map[string]interface{}:
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var s []string
		for _, k := range ks {
			s = append(s, strconv.Quote(k)+":"+canon(t[k]))
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	if p, ok := plain(v); ok {
		return canon(p)
	}
	return fmt.Sprintf("?%T", v)
}

func jsonJS(v interface{}) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(v)
	return bytes.TrimRight(b.Bytes(), "\n")
}

type phold struct {
	P bool `json:"_placeholder"`
	N int  `json:"num"`
}

// vary picks one of the forms a peer may choose from.
func (p *sioPkt) vary(r *rng) *sioPkt {
	if (p.typ == sConnect || p.typ == sDisconnect) && p.form == 0 {
		p.form = r.pick(0, 0, 0, 0, 0, 1, 2, 3)
	}
	return p
}

// encodeSio renders a packet as engine.io messages.
func encodeSio(p *sioPkt, mp bool) []pkt {
	if mp {
		switch p.typ {
		case sConnect, sDisconnect, sError:
			m := map[string]interface{}{"type": int(p.typ), "nsp": p.nsp}
			if p.data != nil {
				m["data"] = p.data
			}
			return []pkt{{false, 4, jsonJS(m)}}
		}
		var b []byte
		n := 3
		if p.id >= 0 {
			n++
		}
		b = append(b, 0x80|byte(n))
		b = mpAppend(b, "type")
		b = mpAppend(b, int64(p.typ))
		b = mpAppend(b, "data")
		if p.args == nil {
			p.args = []interface{}{}
		}
		b = mpAppend(b, p.args)
		b = mpAppend(b, "nsp")
		b = mpAppend(b, p.nsp)
		if p.id >= 0 {
			b = mpAppend(b, "id")
			b = mpAppend(b, p.id)
		}
		return []pkt{{true, 4, b}}
	}
	var bins [][]byte
	args := make([]interface{}, len(p.args))
	for i, a := range p.args {
		if b, ok := a.([]byte); ok {
			args[i] = phold{true, len(bins)}
			bins = append(bins, b)
		} else {
			args[i] = a
		}
	}
	typ := p.typ
	if len(bins) > 0 && typ == sEvent {
		typ = sBinEvent
	}
	if len(bins) > 0 && typ == sAck {
		typ = sBinAck
	}
	var s bytes.Buffer
	s.WriteByte('0' + typ)
	if len(bins) > 0 {
		fmt.Fprintf(&s, "%d-", len(bins))
	}
	if p.nsp != "/" {
		s.WriteString(p.nsp)
		bare := p.form > 0 && p.id < 0 && p.data == nil
		if bare && p.form > 1 && typ == sConnect {
			s.WriteString([...]string{"?token=abc", "?a=1&b=%2Fx"}[p.form&1])
		}
		if !bare || p.form == 2 || typ != sConnect && typ != sDisconnect {
			s.WriteByte(',')
		}
	}
	if p.id >= 0 {
		if p.over {
			s.WriteString(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(p.id)).String())
		} else {
			fmt.Fprintf(&s, "%d", p.id)
		}
	}
	switch typ {
	case sEvent, sBinEvent, sAck, sBinAck:
		s.Write(jsonJS(args))
	default:
		if p.data != nil {
			s.Write(jsonJS(p.data))
		}
	}
	ps := []pkt{{false, 4, s.Bytes()}}
	for _, b := range bins {
		ps = append(ps, pkt{true, 4, b})
	}
	return ps
}

// sioDecoder reassembles packets from engine.io messages.
type sioDecoder struct {
	mp   bool
	cur  *sioPkt
	need int
	bins [][]byte
	hb   int64
}

var errMixed = errors.New("interleaved")

func (d *sioDecoder) add(p pkt) (*sioPkt, error) {
	hbGet(&d.hb)
	defer hbPub(&d.hb)
	if d.mp {
		if !p.bin {
			return mpControl(p.data)
		}
		return mpPacket(p.data)
	}
	if p.bin {
		if d.cur == nil {
			return nil, fmt.Errorf("%w: a binary attachment (%d bytes) without a packet that announces it", errMixed, len(p.data))
		}
		d.bins = append(d.bins, p.data)
		if len(d.bins) < d.need {
			return nil, nil
		}
		c := d.cur
		d.cur = nil
		var bad error
		n := 0
		var fill func(v interface{}) interface{}
		fill = func(v interface{}) interface{} {
			switch t := v.(type) {
			case []interface{}:
				for i := range t {
					t[i] = fill(t[i])
				}
			case map[string]interface{}:
				if x, ok := t["_placeholder"].(bool); ok && x {
					k, err := strconv.Atoi(fmt.Sprint(t["num"]))
					if err != nil || k < 0 || k >= len(d.bins) {
						bad = fmt.Errorf("placeholder %v of %d attachments", t["num"], len(d.bins))
						return nil
					}
					n++
					return d.bins[k]
				}
				for k := range t {
					t[k] = fill(t[k])
				}
			}
			return v
		}
		fill(c.args)
		if bad == nil && n != d.need {
			bad = fmt.Errorf("%d placeholders but %d attachments", n, d.need)
		}
		return c, bad
	}
	if d.cur != nil {
		d.cur = nil
		return nil, fmt.Errorf("%w: text packet %.60q where %d more attachments were due", errMixed, p.data, d.need-len(d.bins))
	}
	s := string(p.data)
	if s == "" || s[0] < '0' || s[0] > '6' {
		return nil, fmt.Errorf("bad packet %.60q", s)
	}
	c := &sioPkt{typ: s[0] - '0', nsp: "/", id: -1}
	s = s[1:]
	need := 0
	if c.typ == sBinEvent || c.typ == sBinAck {
		i := strings.IndexByte(s, '-')
		if i < 1 {
			return nil, fmt.Errorf("bad attachment count in %.60q", p.data)
		}
		n, err := strconv.Atoi(s[:i])
		if err != nil || n < 1 {
			return nil, fmt.Errorf("bad attachment count in %.60q", p.data)
		}
		need = n
		s = s[i+1:]
	}
	if strings.HasPrefix(s, "/") {
		if i := strings.IndexByte(s, ','); i >= 0 {
			c.nsp, s = s[:i], s[i+1:]
		} else {
			c.nsp, s = s, ""
		}
	}
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i > 0 {
		n, err := strconv.ParseInt(s[:i], 10, 64)
		if err != nil {
			return nil, err
		}
		c.id = n
		s = s[i:]
	}
	s = strings.TrimRight(s, "\n")
	if s != "" {
		dec := json.NewDecoder(strings.NewReader(s))
		dec.UseNumber()
		var v interface{}
		if err := dec.Decode(&v); err != nil {
			return nil, fmt.Errorf("data of %.60q: %v", p.data, err)
		}
		switch c.typ {
		case sEvent, sAck, sBinEvent, sBinAck:
			l, ok := v.([]interface{})
			if !ok {
				return nil, fmt.Errorf("data of %.60q is no list", p.data)
			}
			c.args = l
		default:
			c.data = v
		}
	} else if c.typ == sEvent || c.typ == sBinEvent {
		return nil, fmt.Errorf("event without data: %.60q", p.data)
	}
	if need > 0 {
		d.cur, d.need, d.bins = c, need, nil
		return nil, nil
	}
	return c, nil
}

func mpControl(b []byte) (*sioPkt, error) {
	var v struct {
		Type int         `json:"type"`
		Nsp  string      `json:"nsp"`
		Data interface{} `json:"data"`
		ID   *int64      `json:"id"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, err
	}
	switch v.Type {
	case sConnect, sDisconnect, sError:
	default:
		return nil, fmt.Errorf("type %d as text", v.Type)
	}
	return &sioPkt{typ: byte(v.Type), nsp: v.Nsp, id: -1, data: v.Data}, nil
}

func mpPacket(b []byte) (*sioPkt, error) {
	v, rest, err := mpRead(b)
	if err != nil {
		return nil, err
	}
	if len(rest) > 0 {
		return nil, fmt.Errorf("%d bytes after the packet", len(rest))
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("not a map")
	}
	p := &sioPkt{id: -1}
	t, ok := m["type"].(int64)
	if !ok {
		return nil, fmt.Errorf("no type")
	}
	p.typ = byte(t)
	if p.nsp, ok = m["nsp"].(string); !ok {
		return nil, fmt.Errorf("no nsp")
	}
	if id, ok := m["id"].(int64); ok {
		p.id = id
	}
	if m["data"] != nil {
		if p.args, ok = m["data"].([]interface{}); !ok {
			return nil, fmt.Errorf("data is no list")
		}
	} else if p.typ == sEvent {
		return nil, fmt.Errorf("event without data")
	}
	return p, nil
}

// ---- msgpack ----

func mpAppend(b []byte, v interface{}) []byte {
	switch t := v.(type) {
	case nil:
		return append(b, 0xc0)
	case bool:
		if t {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case int:
		return mpAppend(b, int64(t))
	case int64:
		switch {
		case t >= 0 && t < 128:
			return append(b, byte(t))
		case t < 0 && t >= -32:
			return append(b, byte(t))
		case t >= 0 && t < 256:
			return append(b, 0xcc, byte(t))
		case t >= 0 && t < 1<<16:
			return append(b, 0xcd, byte(t>>8), byte(t))
		case t >= 0 && t < 1<<32:
			return binary.BigEndian.AppendUint32(append(b, 0xce), uint32(t))
		case t >= 0:
			return binary.BigEndian.AppendUint64(append(b, 0xcf), uint64(t))
		case t >= -128:
			return append(b, 0xd0, byte(t))
		case t >= -1<<15:
			return append(b, 0xd1, byte(t>>8), byte(t))
		case t >= -1<<31:
			return binary.BigEndian.AppendUint32(append(b, 0xd2), uint32(t))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xd3), uint64(t))
	case float64:
		return binary.BigEndian.AppendUint64(append(b, 0xcb), math.Float64bits(t))
	case string:
		switch n := len(t); {
		case n < 32:
			b = append(b, 0xa0|byte(n))
		case n < 256:
			b = append(b, 0xd9, byte(n))
		case n < 1<<16:
			b = append(b, 0xda, byte(n>>8), byte(n))
		default:
			b = binary.BigEndian.AppendUint32(append(b, 0xdb), uint32(n))
		}
		return append(b, t...)
	case []byte:
		switch n := len(t); {
		case n < 256:
			b = append(b, 0xc4, byte(n))
		case n < 1<<16:
			b = append(b, 0xc5, byte(n>>8), byte(n))
		default:
			b = binary.BigEndian.AppendUint32(append(b, 0xc6), uint32(n))
		}
		return append(b, t...)
	case []string:
		l := make([]interface{}, len(t))
		for i := range t {
			l[i] = t[i]
		}
		return mpAppend(b, l)
	case []interface{}:
		switch n := len(t); {
		case n < 16:
			b = append(b, 0x90|byte(n))
		default:
			b = append(b, 0xdc, byte(n>>8), byte(n))
		}
		for _, x := range t {
			b = mpAppend(b, x)
		}
		return b
	case map[string]string:
		m := map[string]interface{}{}
		for k, x := range t {
			m[k] = x
		}
		return mpAppend(b, m)
	case map[string]interface{}:
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(t) < 16 {
			b = append(b, 0x80|byte(len(t)))
		} else {
			b = append(b, 0xde, byte(len(t)>>8), byte(len(t)))
		}
		for _, k := range ks {
			b = mpAppend(b, k)
			b = mpAppend(b, t[k])
		}
		return b
	}
	if f, ok := v.(float32); ok {
		return binary.BigEndian.AppendUint32(append(b, 0xca), math.Float32bits(f))
	}
	if p, ok := plain(v); ok {
		return mpAppend(b, p)
	}
	panic(fmt.Sprintf("mpAppend %T", v))
}

var errShort = errors.New("msgpack: cut short")

func mpRead(b []byte) (v interface{}, rest []byte, err error) {
	if len(b) == 0 {
		return nil, nil, errShort
	}
	c := b[0]
	b = b[1:]
	num := func(n int) (uint64, bool) {
		if len(b) < n {
			return 0, false
		}
		var x uint64
		for i := 0; i < n; i++ {
			x = x<<8 | uint64(b[i])
		}
		b = b[n:]
		return x, true
	}
	take := func(n uint64) ([]byte, error) {
		if uint64(len(b)) < n {
			return nil, errShort
		}
		d := b[:n]
		b = b[n:]
		return d, nil
	}
	list := func(n uint64) (interface{}, []byte, error) {
		l := []interface{}{}
		for i := uint64(0); i < n; i++ {
			var x interface{}
			if x, b, err = mpRead(b); err != nil {
				return nil, nil, err
			}
			l = append(l, x)
		}
		return l, b, nil
	}
	dict := func(n uint64) (interface{}, []byte, error) {
		m := map[string]interface{}{}
		for i := uint64(0); i < n; i++ {
			var k, x interface{}
			if k, b, err = mpRead(b); err != nil {
				return nil, nil, err
			}
			if x, b, err = mpRead(b); err != nil {
				return nil, nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, nil, fmt.Errorf("msgpack: key %T", k)
			}
			m[ks] = x
		}
		return m, b, nil
	}
	str := func(n uint64, bin bool) (interface{}, []byte, error) {
		d, err := take(n)
		if err != nil {
			return nil, nil, err
		}
		if bin {
			return append([]byte{}, d...), b, nil
		}
		return string(d), b, nil
	}
	switch {
	case c < 0x80:
		return int64(c), b, nil
	case c < 0x90:
		return dict(uint64(c & 15))
	case c < 0xa0:
		return list(uint64(c & 15))
	case c < 0xc0:
		return str(uint64(c&31), false)
	case c >= 0xe0:
		return int64(int8(c)), b, nil
	}
	size := map[byte]int{0xc4: 1, 0xc5: 2, 0xc6: 4, 0xca: 4, 0xcb: 8, 0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8, 0xd0: 1, 0xd1: 2, 0xd2: 4, 0xd3: 8, 0xd9: 1, 0xda: 2, 0xdb: 4, 0xdc: 2, 0xdd: 4, 0xde: 2, 0xdf: 4}[c]
	x, ok := num(size)
	if !ok {
		return nil, nil, errShort
	}
	switch c {
	case 0xc0:
		return nil, b, nil
	case 0xc2, 0xc3:
		return c == 0xc3, b, nil
	case 0xc4, 0xc5, 0xc6:
		return str(x, true)
	case 0xca:
		return float64(math.Float32frombits(uint32(x))), b, nil
	case 0xcb:
		return math.Float64frombits(x), b, nil
	case 0xcc, 0xcd, 0xce, 0xcf:
		return int64(x), b, nil
	case 0xd0:
		return int64(int8(x)), b, nil
	case 0xd1:
		return int64(int16(x)), b, nil
	case 0xd2:
		return int64(int32(x)), b, nil
	case 0xd3:
		return int64(x), b, nil
	case 0xd9, 0xda, 0xdb:
		return str(x, false)
	case 0xdc, 0xdd:
		return list(x)
	case 0xde, 0xdf:
		return dict(x)
	}
	return nil, nil, fmt.Errorf("msgpack: type byte %#x", c)
}

var _ = base64.StdEncoding
