package harness

import (
	"bytes"
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"encoding/binary"
	"errors"
	"fmt"
	"hash"
	"io"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/awcullen/opcua/ua"
)

// This file is an implementation of UA-SecureConversation that is independent of the code under test (only
// the message bodies are encoded with the ua package). It plays either the client or the server end.

const (
	polNone   = "http://opcfoundation.org/UA/SecurityPolicy#None"
	polB128   = "http://opcfoundation.org/UA/SecurityPolicy#Basic128Rsa15"
	polB256   = "http://opcfoundation.org/UA/SecurityPolicy#Basic256"
	polB256S  = "http://opcfoundation.org/UA/SecurityPolicy#Basic256Sha256"
	polA128   = "http://opcfoundation.org/UA/SecurityPolicy#Aes128_Sha256_RsaOaep"
	polA256   = "http://opcfoundation.org/UA/SecurityPolicy#Aes256_Sha256_RsaPss"
	modeNone  = ua.MessageSecurityModeNone
	modeSign  = ua.MessageSecurityModeSign
	modeSignE = ua.MessageSecurityModeSignAndEncrypt
)

type polDef struct {
	hash                     crypto.Hash
	pss                      bool
	oaep                     crypto.Hash // 0: pkcs1v15
	sigKey, encKey, blk, sig int
	nonce                    int
	sigURI                   string
	encURI                   string
}

var polDefs = map[string]polDef{
	polNone:  {},
	polB128:  {crypto.SHA1, false, 0, 16, 16, 16, 20, 16, "http://www.w3.org/2000/09/xmldsig#rsa-sha1", "http://www.w3.org/2001/04/xmlenc#rsa-1_5"},
	polB256:  {crypto.SHA1, false, crypto.SHA1, 24, 32, 16, 20, 32, "http://www.w3.org/2000/09/xmldsig#rsa-sha1", "http://www.w3.org/2001/04/xmlenc#rsa-oaep"},
	polB256S: {crypto.SHA256, false, crypto.SHA1, 32, 32, 16, 32, 32, "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256", "http://www.w3.org/2001/04/xmlenc#rsa-oaep"},
	polA128:  {crypto.SHA256, false, crypto.SHA1, 32, 16, 16, 32, 32, "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256", "http://www.w3.org/2001/04/xmlenc#rsa-oaep"},
	polA256:  {crypto.SHA256, true, crypto.SHA256, 32, 32, 16, 32, 32, "http://opcfoundation.org/UA/security/rsa-pss-sha2-256", "http://opcfoundation.org/UA/security/rsa-oaep-sha2-256"},
}

func (d polDef) newHash() func() hash.Hash {
	if d.hash == crypto.SHA1 {
		return sha1.New
	}
	return sha256.New
}

func digest(h crypto.Hash, parts ...[]byte) []byte {
	var w hash.Hash
	if h == crypto.SHA1 {
		w = sha1.New()
	} else {
		w = sha256.New()
	}
	for _, p := range parts {
		w.Write(p)
	}
	return w.Sum(nil)
}

func (d polDef) rsaSign(key *rsa.PrivateKey, parts ...[]byte) []byte {
	dg := digest(d.hash, parts...)
	var s []byte
	var err error
	if d.pss {
		s, err = rsa.SignPSS(rand.Reader, key, d.hash, dg, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
	} else {
		s, err = rsa.SignPKCS1v15(rand.Reader, key, d.hash, dg)
	}
	if err != nil {
		panic(err)
	}
	return s
}

func (d polDef) rsaVerify(pub *rsa.PublicKey, sig []byte, parts ...[]byte) error {
	dg := digest(d.hash, parts...)
	if d.pss {
		return rsa.VerifyPSS(pub, d.hash, dg, sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
	}
	return rsa.VerifyPKCS1v15(pub, d.hash, dg, sig)
}

func (d polDef) padSize() int {
	switch d.oaep {
	case crypto.SHA1:
		return 42
	case crypto.SHA256:
		return 66
	}
	return 11
}

func (d polDef) rsaEncrypt(pub *rsa.PublicKey, plain []byte) []byte {
	var out []byte
	n := pub.Size() - d.padSize()
	for len(plain) > 0 {
		k := min(n, len(plain))
		var c []byte
		var err error
		switch d.oaep {
		case crypto.SHA1:
			c, err = rsa.EncryptOAEP(sha1.New(), rand.Reader, pub, plain[:k], nil)
		case crypto.SHA256:
			c, err = rsa.EncryptOAEP(sha256.New(), rand.Reader, pub, plain[:k], nil)
		default:
			c, err = rsa.EncryptPKCS1v15(rand.Reader, pub, plain[:k])
		}
		if err != nil {
			panic(err)
		}
		out = append(out, c...)
		plain = plain[k:]
	}
	return out
}

func (d polDef) rsaDecrypt(key *rsa.PrivateKey, data []byte) ([]byte, error) {
	var out []byte
	n := key.Size()
	if len(data)%n != 0 {
		return nil, errors.New("cipher text is not a multiple of the key size")
	}
	for len(data) > 0 {
		var p []byte
		var err error
		switch d.oaep {
		case crypto.SHA1:
			p, err = rsa.DecryptOAEP(sha1.New(), nil, key, data[:n], nil)
		case crypto.SHA256:
			p, err = rsa.DecryptOAEP(sha256.New(), nil, key, data[:n], nil)
		default:
			p, err = rsa.DecryptPKCS1v15(nil, key, data[:n])
		}
		if err != nil {
			return nil, err
		}
		out = append(out, p...)
		data = data[n:]
	}
	return out, nil
}

func (d polDef) psha(secret, seed []byte, n int) []byte {
	var out []byte
	a := seed
	for len(out) < n {
		m := hmac.New(d.newHash(), secret)
		m.Write(a)
		a = m.Sum(nil)
		m = hmac.New(d.newHash(), secret)
		m.Write(a)
		m.Write(seed)
		out = append(out, m.Sum(nil)...)
	}
	return out[:n]
}

type symKeys struct{ sign, enc, iv []byte }

func (d polDef) derive(secret, seed []byte) symKeys {
	b := d.psha(secret, seed, d.sigKey+d.encKey+d.blk)
	return symKeys{b[:d.sigKey], b[d.sigKey : d.sigKey+d.encKey], b[d.sigKey+d.encKey:]}
}

type tokenKeys struct{ client, server symKeys }

// Rx is something received by a Peer.
type Rx struct {
	At     time.Duration // since the peer was created
	Kind   string        // MSG OPN CLO ERR ACK HEL EOF BAD
	ReqID  uint32
	Seqs   []uint32
	Tokens []uint32
	Chunks int
	MaxLen int
	BodyN  int
	Name   string
	Msg    any
	Code   uint32
	Err    string
	Raw    [][]byte
}

// Peer is one end of a secure conversation.
type Peer struct {
	sendMu     sync.Mutex
	conn       *memConn
	isServer   bool
	policy     string
	mode       ua.MessageSecurityMode
	cert       []byte
	key        *rsa.PrivateKey
	remoteCert []byte
	remotePub  *rsa.PublicKey
	ec         ua.EncodingContext

	seq       uint32
	channelID uint32
	sendToken uint32
	tokens    map[uint32]tokenKeys
	sendBuf   int
	ack       [5]uint32

	mu      sync.Mutex
	rx      []Rx
	born    time.Time
	pending struct {
		body   []byte
		seqs   []uint32
		tokens []uint32
		n      int
		maxLen int
		raw    [][]byte
		req    uint32
	}
	lastRxSeq  uint32
	keepRaw    bool
	nextReq    uint32
	lastCNonce []byte
	gate       atomic.Pointer[chan struct{}] // while set, nothing more is read
	onRx       func(Rx)                      // called for everything received
	seen       []byte                        // raw bytes received, if keepSeen
	keepSeen   bool
}

func newPeer(conn *memConn) *Peer {
	p := &Peer{conn: conn, policy: polNone, mode: modeNone, ec: ua.NewEncodingContext(), tokens: map[uint32]tokenKeys{}, sendBuf: 65536, born: time.Now()}
	return p
}

func (p *Peer) start() { go p.reader() }

func (p *Peer) push(r Rx) {
	r.At = time.Since(p.born)
	p.mu.Lock()
	p.rx = append(p.rx, r)
	p.mu.Unlock()
	if p.onRx != nil {
		p.onRx(r)
	}
}

// take removes and returns everything received so far.
func (p *Peer) take() []Rx {
	p.mu.Lock()
	defer p.mu.Unlock()
	r := p.rx
	p.rx = nil
	return r
}

func (p *Peer) close() { p.conn.Close() }

func readFrame(r io.Reader) ([]byte, error) {
	h := make([]byte, 8)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	n := binary.LittleEndian.Uint32(h[4:])
	if n < 8 || n > 1<<26 {
		return nil, fmt.Errorf("bad frame length %d", n)
	}
	b := make([]byte, n)
	copy(b, h)
	if _, err := io.ReadFull(r, b[8:]); err != nil {
		return nil, err
	}
	return b, nil
}

func (p *Peer) reader() {
	for {
		f, err := readFrame(p.conn)
		if g := p.gate.Load(); g != nil {
			<-*g
		}
		if err != nil {
			p.push(Rx{Kind: "EOF", Err: err.Error()})
			return
		}
		if p.keepSeen {
			p.seen = append(p.seen, f...)
		}
		p.frame(f)
	}
}

type chunkInfo struct {
	typ     string
	final   byte
	channel uint32
	token   uint32
	seq     uint32
	reqID   uint32
	body    []byte
}

func (p *Peer) recvKeys(t tokenKeys) symKeys {
	if p.isServer {
		return t.client
	}
	return t.server
}
func (p *Peer) sendKeys(t tokenKeys) symKeys {
	if p.isServer {
		return t.server
	}
	return t.client
}

// parseChunk authenticates, decrypts and splits one MSG/CLO chunk.
func (p *Peer) parseChunk(f []byte) (c chunkInfo, err error) {
	c.typ, c.final = string(f[:3]), f[3]
	if len(f) < 24 {
		return c, errors.New("chunk too short")
	}
	c.channel = binary.LittleEndian.Uint32(f[8:])
	c.token = binary.LittleEndian.Uint32(f[12:])
	if c.channel != p.channelID {
		return c, fmt.Errorf("channel id %d, want %d", c.channel, p.channelID)
	}
	t, ok := p.tokens[c.token]
	if !ok {
		return c, fmt.Errorf("unknown token %d", c.token)
	}
	d := polDefs[p.policy]
	f = bytes.Clone(f)
	k := p.recvKeys(t)
	if p.mode == modeSignE {
		if (len(f)-16)%d.blk != 0 {
			return c, errors.New("cipher text not block aligned")
		}
		b, _ := aes.NewCipher(k.enc)
		cipher.NewCBCDecrypter(b, k.iv).CryptBlocks(f[16:], f[16:])
	}
	end := len(f)
	if p.mode == modeSignE || p.mode == modeSign {
		end -= d.sig
		if end < 24 {
			return c, errors.New("chunk too short for a signature")
		}
		m := hmac.New(d.newHash(), k.sign)
		m.Write(f[:end])
		if !hmac.Equal(m.Sum(nil), f[end:]) {
			return c, errors.New("bad signature")
		}
	}
	if p.mode == modeSignE {
		pad := int(f[end-1])
		for i := 0; i <= pad; i++ {
			if f[end-1-i] != byte(pad) {
				return c, errors.New("bad padding")
			}
		}
		end -= pad + 1
	}
	c.seq = binary.LittleEndian.Uint32(f[16:])
	c.reqID = binary.LittleEndian.Uint32(f[20:])
	c.body = f[24:end]
	return c, nil
}

func (p *Peer) parseOPN(f []byte) (c chunkInfo, policy string, cert []byte, err error) {
	c.typ, c.final = string(f[:3]), f[3]
	r := bytes.NewReader(f[8:])
	var ch uint32
	binary.Read(r, binary.LittleEndian, &ch)
	c.channel = ch
	rd := func() []byte {
		var n int32
		if e := binary.Read(r, binary.LittleEndian, &n); e != nil {
			err = e
			return nil
		}
		if n < 0 {
			return nil
		}
		if int(n) > r.Len() {
			err = errors.New("field longer than message")
			return nil
		}
		b := make([]byte, n)
		io.ReadFull(r, b)
		return b
	}
	policy = string(rd())
	cert = rd()
	thumb := rd()
	if err != nil {
		return
	}
	hdr := len(f) - r.Len()
	rest := f[hdr:]
	if policy != polNone {
		d, ok := polDefs[policy]
		if !ok {
			err = errors.New("unknown policy " + policy)
			return
		}
		own := p.cert
		if x, err := x509.ParseCertificates(own); err == nil {
			own = x[0].Raw // followed by those of its authorities, perhaps
		}
		want := sha1.Sum(own)
		if !bytes.Equal(thumb, want[:]) {
			err = errors.New("receiver thumbprint does not match")
			return
		}
		var crts []*x509.Certificate
		crts, err = x509.ParseCertificates(cert)
		if err != nil {
			return
		}
		pub := crts[0].PublicKey.(*rsa.PublicKey)
		rest, err = d.rsaDecrypt(p.key, rest)
		if err != nil {
			return
		}
		n := len(rest) - pub.Size()
		if n < 9 {
			err = errors.New("OPN too short")
			return
		}
		if err = d.rsaVerify(pub, rest[n:], f[:hdr], rest[:n]); err != nil {
			return
		}
		if p.key.Size() > 256 {
			pad := int(rest[n-1])<<8 | int(rest[n-2])
			n -= pad + 2
		} else {
			n -= int(rest[n-1]) + 1
		}
		rest = rest[:n]
	}
	c.seq = binary.LittleEndian.Uint32(rest)
	c.reqID = binary.LittleEndian.Uint32(rest[4:])
	c.body = rest[8:]
	return
}

func (p *Peer) decodeBody(b []byte) (string, any, error) {
	r := bytes.NewReader(b)
	dec := ua.NewBinaryDecoder(r, p.ec)
	var id ua.NodeID
	if err := dec.ReadNodeID(&id); err != nil {
		return "", nil, err
	}
	n, ok := id.(ua.NodeIDNumeric)
	if !ok || n.NamespaceIndex != 0 {
		return "", nil, fmt.Errorf("unexpected type id %v", id)
	}
	mt, ok := msgTypes[n.ID]
	if !ok {
		return "", nil, fmt.Errorf("unknown type id %v", id)
	}
	v := mt.mk()
	if err := dec.Decode(v); err != nil {
		return mt.name, nil, err
	}
	if r.Len() != 0 {
		return mt.name, v, fmt.Errorf("%d trailing bytes after %s", r.Len(), mt.name)
	}
	return mt.name, v, nil
}

func (p *Peer) frame(f []byte) {
	switch string(f[:4]) {
	case "ACKF":
		r := Rx{Kind: "ACK"}
		if len(f) != 28 {
			r.Kind, r.Err = "BAD", "ACK length"
		} else {
			for i := range p.ack {
				p.ack[i] = binary.LittleEndian.Uint32(f[8+4*i:])
			}
		}
		p.push(r)
	case "HELF":
		p.push(Rx{Kind: "HEL", Raw: [][]byte{f}})
	case "ERRF":
		r := Rx{Kind: "ERR"}
		if len(f) >= 12 {
			r.Code = binary.LittleEndian.Uint32(f[8:])
		}
		p.push(r)
	case "OPNF":
		c, policy, cert, err := p.parseOPN(f)
		if err != nil {
			p.push(Rx{Kind: "BAD", Err: "OPN: " + err.Error(), Raw: [][]byte{f}})
			return
		}
		if p.isServer {
			p.policy = policy
			p.remoteCert = cert
			if crts, e := x509.ParseCertificates(cert); e == nil && len(crts) > 0 {
				p.remotePub, _ = crts[0].PublicKey.(*rsa.PublicKey)
			}
		}
		name, msg, err := p.decodeBody(c.body)
		if err != nil {
			p.push(Rx{Kind: "BAD", Err: "OPN body: " + err.Error()})
			return
		}
		if m, ok := msg.(*ua.OpenSecureChannelResponse); ok {
			p.channelID = m.SecurityToken.ChannelID
			d := polDefs[p.policy]
			sn := []byte(m.ServerNonce)
			p.tokens[m.SecurityToken.TokenID] = tokenKeys{client: d.derive(sn, p.lastCNonce), server: d.derive(p.lastCNonce, sn)}
			p.sendToken = m.SecurityToken.TokenID
		}
		p.push(Rx{Kind: "OPN", ReqID: c.reqID, Seqs: []uint32{c.seq}, Chunks: 1, MaxLen: len(f), Name: name, Msg: msg, BodyN: len(c.body)})
	case "MSGC", "MSGF", "CLOF":
		c, err := p.parseChunk(f)
		if err != nil {
			p.push(Rx{Kind: "BAD", Err: err.Error(), Tokens: []uint32{c.token}, Raw: [][]byte{f}})
			return
		}
		q := &p.pending
		q.n++
		if q.n > 1 && q.req != c.reqID {
			p.push(Rx{Kind: "BAD", Err: fmt.Sprintf("chunk of request %d within request %d", c.reqID, q.req), Raw: [][]byte{f}})
		}
		q.req = c.reqID
		q.seqs = append(q.seqs, c.seq)
		q.tokens = append(q.tokens, c.token)
		q.body = append(q.body, c.body...)
		q.maxLen = max(q.maxLen, len(f))
		if p.keepRaw {
			q.raw = append(q.raw, f)
		}
		if c.final == 'C' {
			return
		}
		r := Rx{Kind: c.typ, ReqID: c.reqID, Seqs: q.seqs, Tokens: q.tokens, Chunks: q.n, MaxLen: q.maxLen, BodyN: len(q.body), Raw: q.raw}
		body := q.body
		*q = struct {
			body   []byte
			seqs   []uint32
			tokens []uint32
			n      int
			maxLen int
			raw    [][]byte
			req    uint32
		}{}
		r.Name, r.Msg, err = p.decodeBody(body)
		if err != nil {
			r.Kind, r.Err = "BAD", "body: "+err.Error()
		}
		p.push(r)
	default:
		p.push(Rx{Kind: "BAD", Err: fmt.Sprintf("frame type %q", f[:4]), Raw: [][]byte{f}})
	}
}

// ---- sending ----

func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }

func leStr(b []byte) []byte {
	if b == nil {
		return le32(0xffffffff)
	}
	return append(le32(uint32(len(b))), b...)
}

// encodeBody encodes the type id and message.
func (p *Peer) encodeBody(msg any) []byte {
	var buf bytes.Buffer
	name := reflect.TypeOf(msg).Elem().Name()
	var id uint32
	for k, v := range msgTypes {
		if v.name == name {
			id = k
		}
	}
	buf.Write([]byte{1, 0})
	binary.Write(&buf, binary.LittleEndian, uint16(id))
	if err := ua.NewBinaryEncoder(&buf, p.ec).Encode(msg); err != nil {
		panic(fmt.Sprintf("encode %s: %v", name, err))
	}
	return buf.Bytes()
}

func (p *Peer) hello(rbuf, sbuf, maxMsg, maxChunk uint32, url string) []byte {
	b := []byte("HELF")
	b = append(b, le32(uint32(32+len(url)))...)
	for _, v := range []uint32{0, rbuf, sbuf, maxMsg, maxChunk} {
		b = append(b, le32(v)...)
	}
	return append(b, leStr([]byte(url))...)
}

func (p *Peer) ackFrame(rbuf, sbuf, maxMsg, maxChunk uint32) []byte {
	b := []byte("ACKF")
	b = append(b, le32(28)...)
	for _, v := range []uint32{0, rbuf, sbuf, maxMsg, maxChunk} {
		b = append(b, le32(v)...)
	}
	return b
}

func (p *Peer) nextSeq() uint32 { p.seq++; return p.seq }

// opnOpts says how an OPN message deviates from a correct one.
type opnOpts struct {
	typ      string
	policy   string
	cert     []byte
	key      *rsa.PrivateKey
	channel  *uint32
	seq      *uint32
	badSig   bool
	pad      int // claim this much padding
	sigOnly  bool
	noCipher bool
}

// buildOPN builds an OPN message carrying body.
func (p *Peer) buildOPN(body []byte, reqID uint32) []byte {
	return p.buildOPNx(body, reqID, opnOpts{policy: p.policy, cert: p.cert, key: p.key})
}

func (p *Peer) buildOPNx(body []byte, reqID uint32, o opnOpts) []byte {
	d := polDefs[o.policy]
	if o.typ == "" {
		o.typ = "OPNF"
	}
	hdr := append([]byte(o.typ), 0, 0, 0, 0)
	ch := p.channelID
	if o.channel != nil {
		ch = *o.channel
	}
	hdr = append(hdr, le32(ch)...)
	hdr = append(hdr, leStr([]byte(o.policy))...)
	var seq uint32
	if o.seq != nil {
		seq = *o.seq
	} else {
		seq = p.nextSeq()
	}
	plain := append(le32(seq), le32(reqID)...)
	plain = append(plain, body...)
	if o.key == nil {
		hdr = append(hdr, leStr(o.cert)...)
		hdr = append(hdr, leStr(nil)...)
		out := append(hdr, plain...)
		binary.LittleEndian.PutUint32(out[4:], uint32(len(out)))
		return out
	}
	hdr = append(hdr, leStr(o.cert)...)
	th := sha1.Sum(p.remoteCert)
	hdr = append(hdr, leStr(th[:])...)
	if o.noCipher {
		binary.LittleEndian.PutUint32(hdr[4:], uint32(len(hdr)))
		return hdr
	}
	ks := p.remotePub.Size()
	blk := ks - d.padSize()
	sig := o.key.Size()
	ph := 1
	if ks > 256 {
		ph = 2
	}
	if o.sigOnly {
		plain = nil
	} else {
		pad := (blk - (len(plain)+ph+sig)%blk) % blk
		say := pad
		if o.pad > 0 {
			say = o.pad
		}
		plain = append(plain, byte(say))
		for i := 0; i < pad; i++ {
			plain = append(plain, byte(say))
		}
		if ph == 2 {
			plain = append(plain, byte(say>>8))
		}
	}
	n := len(plain) + sig
	total := len(hdr) + (n+blk-1)/blk*ks
	binary.LittleEndian.PutUint32(hdr[4:], uint32(total))
	s := d.rsaSign(o.key, hdr, plain)
	if o.badSig {
		s[len(s)/2] ^= 4
	}
	plain = append(plain, s...)
	return append(hdr, d.rsaEncrypt(p.remotePub, plain)...)
}

// chunkSpec describes one chunk.
type chunkSpec struct {
	typ     string // with the chunk type
	channel uint32
	token   uint32
	keys    symKeys
	seq     uint32
	reqID   uint32
	body    []byte
	pad     int  // -1: correct padding; otherwise the padding size to claim
	noSig   bool // zeros instead of a signature
	extra   int  // bytes too many
}

func (p *Peer) buildChunk(s chunkSpec) []byte {
	d := polDefs[p.policy]
	c := append([]byte(s.typ), 0, 0, 0, 0)
	c = append(c, le32(s.channel)...)
	c = append(c, le32(s.token)...)
	c = append(c, le32(s.seq)...)
	c = append(c, le32(s.reqID)...)
	c = append(c, s.body...)
	if p.mode == modeSignE {
		pad := (d.blk - (8+len(s.body)+1+d.sig)%d.blk) % d.blk
		say := pad
		if s.pad >= 0 {
			say = s.pad
		}
		for i := 0; i <= pad; i++ {
			c = append(c, byte(say))
		}
	}
	size := len(c) + s.extra
	if p.mode != modeNone {
		size += d.sig
	}
	binary.LittleEndian.PutUint32(c[4:], uint32(size))
	if p.mode != modeNone {
		m := hmac.New(d.newHash(), s.keys.sign)
		m.Write(c)
		sig := m.Sum(nil)
		if s.noSig {
			sig = make([]byte, len(sig))
		}
		c = append(c, sig...)
	}
	if p.mode == modeSignE {
		b, err := aes.NewCipher(s.keys.enc)
		if err != nil {
			panic(err)
		}
		cipher.NewCBCEncrypter(b, s.keys.iv).CryptBlocks(c[16:], c[16:])
	}
	return append(c, make([]byte, s.extra)...)
}

type msgOpts struct {
	typ      string // MSG or CLO
	chunk    int    // body bytes per chunk; 0 = as many as fit
	token    *uint32
	keys     *tokenKeys
	channel  *uint32
	seqs     []uint32 // explicit sequence numbers
	dropLast bool     // leave the message without a final chunk
	abort    bool     // make the last chunk an abort chunk
}

// buildMSG builds the chunks of a message carrying body.
func (p *Peer) buildMSG(body []byte, reqID uint32, o msgOpts) [][]byte {
	if o.typ == "" {
		o.typ = "MSG"
	}
	d := polDefs[p.policy]
	maxBody := p.sendBuf - 16 - 8
	switch p.mode {
	case modeSign:
		maxBody -= d.sig
	case modeSignE:
		maxBody = (p.sendBuf-16)/d.blk*d.blk - 8 - 1 - d.sig
	}
	if o.chunk > 0 {
		maxBody = o.chunk
	}
	tok := p.sendToken
	if o.token != nil {
		tok = *o.token
	}
	chn := p.channelID
	if o.channel != nil {
		chn = *o.channel
	}
	keys := p.tokens[tok]
	if o.keys != nil {
		keys = *o.keys
	}
	k := p.sendKeys(keys)
	var out [][]byte
	for first := true; first || len(body) > 0; first = false {
		n := min(maxBody, len(body))
		part := body[:n]
		body = body[n:]
		fin := byte('C')
		if len(body) == 0 && !o.dropLast {
			fin = 'F'
			if o.abort {
				fin = 'A'
			}
		}
		c := append([]byte(o.typ), fin)
		c = append(c, 0, 0, 0, 0)
		c = append(c, le32(chn)...)
		c = append(c, le32(tok)...)
		if len(o.seqs) > len(out) {
			c = append(c, le32(o.seqs[len(out)])...)
		} else {
			c = append(c, le32(p.nextSeq())...)
		}
		c = append(c, le32(reqID)...)
		c = append(c, part...)
		if p.mode == modeSignE {
			pad := (d.blk - (8+n+1+d.sig)%d.blk) % d.blk
			for i := 0; i <= pad; i++ {
				c = append(c, byte(pad))
			}
		}
		size := len(c)
		if p.mode != modeNone {
			size += d.sig
		}
		binary.LittleEndian.PutUint32(c[4:], uint32(size))
		if p.mode != modeNone {
			m := hmac.New(d.newHash(), k.sign)
			m.Write(c)
			c = append(c, m.Sum(nil)...)
		}
		if p.mode == modeSignE {
			b, err := aes.NewCipher(k.enc)
			if err != nil {
				panic(err)
			}
			cipher.NewCBCEncrypter(b, k.iv).CryptBlocks(c[16:], c[16:])
		}
		out = append(out, c)
	}
	return out
}

func (p *Peer) raw(b []byte) error {
	_, err := p.conn.Write(b)
	return err
}

// send encodes and sends a service message; it returns the request id used.
func (p *Peer) send(msg any, reqID uint32) {
	p.sendMu.Lock()
	defer p.sendMu.Unlock()
	for _, c := range p.buildMSG(p.encodeBody(msg), reqID, msgOpts{}) {
		p.raw(c)
	}
}

func nonce(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	return b
}

// sendOpen sends an OpenSecureChannel request (client role).
func (p *Peer) sendOpen(typ ua.SecurityTokenRequestType, lifetime, reqID uint32) {
	p.lastCNonce = nonce(polDefs[p.policy].nonce)
	req := &ua.OpenSecureChannelRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: reqID}, RequestType: typ, SecurityMode: p.mode, ClientNonce: ua.ByteString(p.lastCNonce), RequestedLifetime: lifetime}
	p.raw(p.buildOPN(p.encodeBody(req), reqID))
}
