package harness

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["trust"] = runTrust }

type tCase struct {
	Via, Need, Ask            string
	Tol                       struct{ Host, Time, Chain, Revo bool }
	Trusted, Issuers, Present []string
	Leaf                      struct {
		Iss, When, Host string
		Eku             []string
		Forged          bool
	}
	Ca map[string]struct {
		When string
		Sign bool
	}
	Crls []struct {
		By, Place       string
		Revoked         []string
		Current, Forged bool
	}
	Form string
}

// tWorld holds the certificates of a case.
type tWorld struct {
	k     tCase
	certs map[string]*x509.Certificate
	dir   string
	key   *rsa.PrivateKey
}

var tKeys = map[string]string{"rootA": "client2", "rootB": "user1", "intA": "user2", "intX": "user2"}
var tSerial = map[string]int64{"rootA": 1, "rootB": 2, "intA": 3, "intX": 4, "leaf": 5}

const year = 365 * 24 * time.Hour

func (w *tWorld) window(when string, long bool) (time.Time, time.Time) {
	now := time.Now()
	switch when {
	case "expired":
		return now.Add(-2 * year), now.Add(-year)
	case "future":
		return now.Add(year), now.Add(2 * year)
	}
	if long {
		return now.Add(-10 * year), now.Add(10 * year)
	}
	return now.Add(-time.Hour), now.Add(year)
}

func bare(c *x509.Certificate) *x509.Certificate {
	d := *c
	d.PublicKey = nil
	return &d
}

func (w *tWorld) make() {
	w.certs = map[string]*x509.Certificate{}
	sign := func(t, parent *x509.Certificate, pub *rsa.PublicKey, key *rsa.PrivateKey) *x509.Certificate {
		der, err := x509.CreateCertificate(rand.Reader, t, bare(parent), pub, key)
		if err != nil {
			panic(err)
		}
		c, err := x509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		return c
	}
	key := func(n string) *rsa.PrivateKey { _, k := loadPair(n); return k }
	for _, n := range []string{"rootA", "rootB", "intA", "intX"} {
		from, to := w.window(w.k.Ca[n].When, true)
		name := n
		if n == "intX" {
			name = "intA"
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(tSerial[n]), Subject: pkix.Name{CommonName: "verif " + name}, NotBefore: from, NotAfter: to, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature}
		if w.k.Ca[n].Sign {
			t.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageCRLSign
		}
		k := key(tKeys[n])
		switch n {
		case "intA":
			w.certs[n] = sign(t, w.certs["rootA"], &k.PublicKey, key(tKeys["rootA"]))
		case "intX":
			w.certs[n] = sign(t, w.certs["rootB"], &k.PublicKey, key(tKeys["rootB"]))
		default:
			w.certs[n] = sign(t, t, &k.PublicKey, k)
		}
	}
	w.key = key("client1")
	if w.k.Via == "client" {
		w.key = key("server")
	}
	from, to := w.window(w.k.Leaf.When, false)
	u, _ := url.Parse("urn:verif:leaf")
	t := &x509.Certificate{SerialNumber: big.NewInt(tSerial["leaf"]), Subject: pkix.Name{CommonName: "verif leaf"}, NotBefore: from, NotAfter: to, URIs: []*url.URL{u}, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageContentCommitment | x509.KeyUsageKeyEncipherment | x509.KeyUsageDataEncipherment | x509.KeyUsageCertSign, DNSNames: []string{"localhost"}}
	if w.k.Leaf.Host != "localhost" {
		t.DNSNames = []string{"elsewhere.example"}
	}
	for _, e := range w.k.Leaf.Eku {
		t.ExtKeyUsage = append(t.ExtKeyUsage, map[string]x509.ExtKeyUsage{"client": x509.ExtKeyUsageClientAuth, "server": x509.ExtKeyUsageServerAuth}[e])
	}
	parent, by := t, w.key
	if w.k.Leaf.Iss != "self" {
		parent, by = w.certs[w.k.Leaf.Iss], key(tKeys[w.k.Leaf.Iss])
	}
	if w.k.Leaf.Forged {
		by = key(map[bool]string{true: "user1", false: "client2"}[w.k.Leaf.Iss != "rootB" && w.k.Leaf.Iss != "self"])
	}
	w.certs["leaf"] = sign(t, parent, &w.key.PublicKey, by)
}

// store writes certificates or lists in the form of the case and returns their path.
func (w *tWorld) store(name, typ string, ders [][]byte) string {
	dir := filepath.Join(w.dir, name)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	file := func(n string, b []byte) string {
		f := filepath.Join(dir, n)
		if err := os.WriteFile(f, b, 0o644); err != nil {
			panic(err)
		}
		return f
	}
	enc := func(d []byte) []byte { return pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: d}) }
	list, all := []string{}, []byte("notes in front\n")
	for i, d := range ders {
		b := enc(d)
		if w.k.Form == "der" {
			b = d
		}
		if w.k.Form == "bundle" {
			all = append(all, b...)
		} else {
			list = append(list, file(fmt.Sprintf("%d.x", i), b))
		}
	}
	switch w.k.Form {
	case "bundle":
		return file("all.pem", append(all, "notes behind\n"...))
	case "list":
		return strings.Join(list, ", ")
	case "junk":
		file("0", []byte("nothing of the kind"))
		file("7.pem", pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: []byte{1, 2, 3}}))
		file("8.pem", pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: []byte{1, 2, 3}}))
		file("9", nil)
	}
	return dir
}

func (w *tWorld) ders(names []string) (out [][]byte) {
	for _, n := range names {
		out = append(out, w.certs[n].Raw)
	}
	return
}

func (w *tWorld) lists(place string) (out [][]byte) {
	for i, l := range w.k.Crls {
		if l.Place != place {
			continue
		}
		issuer := bare(w.certs[l.By])
		issuer.KeyUsage |= x509.KeyUsageCRLSign
		_, key := loadPair(tKeys[l.By])
		if l.Forged {
			_, key = loadPair("server")
		}
		now := time.Now()
		t := &x509.RevocationList{Number: big.NewInt(int64(i + 1)), ThisUpdate: now.Add(-2 * time.Hour), NextUpdate: now.Add(24 * time.Hour)}
		if !l.Current {
			t.NextUpdate = now.Add(-time.Hour)
		}
		for _, r := range l.Revoked {
			t.RevokedCertificateEntries = append(t.RevokedCertificateEntries, x509.RevocationListEntry{SerialNumber: big.NewInt(tSerial[r]), RevocationTime: now.Add(-3 * time.Hour)})
		}
		der, err := x509.CreateRevocationList(rand.Reader, t, issuer, key)
		if err != nil {
			panic(err)
		}
		out = append(out, der)
	}
	return
}

func runTrust(rec *recorder, raw json.RawMessage) {
	var c struct{ Steps []tCase }
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	for i, k := range c.Steps {
		ev := obj{"i": i}
		w := &tWorld{k: k}
		w.make()
		dir, err := os.MkdirTemp("", "verif-trust-")
		if err != nil {
			panic(err)
		}
		w.dir = dir
		tc, tl := w.store("trusted", "CERTIFICATE", w.ders(k.Trusted)), w.store("trustedlists", "X509 CRL", w.lists("trusted"))
		ic, il := w.store("issuers", "CERTIFICATE", w.ders(k.Issuers)), w.store("issuerslists", "X509 CRL", w.lists("issuers"))
		rej := filepath.Join(dir, "rejected", "certs")
		chain := bytes.Join(append([][]byte{w.certs["leaf"].Raw}, w.ders(k.Present)...), nil)
		tol := k.Tol.Chain && k.Tol.Revo && k.Tol.Time
		switch k.Via {
		case "api":
			certs, _ := x509.ParseCertificates(chain)
			use := []x509.ExtKeyUsage{map[string]x509.ExtKeyUsage{"client": x509.ExtKeyUsageClientAuth, "server": x509.ExtKeyUsageServerAuth}[k.Need]}
			err := ua.ValidateCertificate(certs, use, k.Ask, tc, tl, ic, il, rej, k.Tol.Host, k.Tol.Time, k.Tol.Chain, k.Tol.Revo)
			ev["got"] = "Good"
			var sc ua.StatusCode
			if err != nil {
				ev["got"], ev["err"] = "Bad", err.Error()
				if errors.As(err, &sc) {
					ev["got"] = code(sc)
				}
			}
		case "server":
			opts := []server.Option{server.WithTrustedCertificatesPaths(tc, tl), server.WithIssuerCertificatesPaths(ic, il), server.WithRejectedCertificatesPath(rej)}
			if tol {
				opts = append(opts, server.WithInsecureSkipVerify())
			}
			e := (&env{strict: true}).init(rec, opts...)
			e.serve()
			p := e.dial()
			p.secure(polB256S, modeSign, "client1")
			p.cert = chain
			p.sendOpen(ua.SecurityTokenRequestTypeIssue, 3600000, 1)
			synctest.Wait()
			rx := p.take()
			ev["got"] = "Bad"
			if len(rx) == 1 && rx[0].Kind == "OPN" {
				ev["got"] = "Good"
			}
			ev["err"] = fmt.Sprintf("%.200s", fmt.Sprintf("%+v", rx))
			p.close()
			e.srv.Close()
			synctest.Wait()
		case "client":
			kw := &kWorld{rec: rec, t0: time.Now(), reqs: map[int][]kReq{}, calls: map[int]*kCall{}, done: map[int]string{}, lastSq: map[*Peer]uint32{}, clo: map[*Peer]bool{}, eof: map[*Peer]bool{}, nextID: 40, toks: 100}
			kw.cert, kw.key = chain, w.key
			kw.mut = "none"
			kw.c.Conf.Pol = "Basic256Sha256-S"
			kw.c.Conf.Buf, kw.c.Conf.Hint = 65536, 5000
			kw.more = []client.Option{client.WithTrustedCertificatesPaths(tc, tl), client.WithIssuerCertificatesPaths(ic, il), client.WithRejectedCertificatesPath(rej)}
			kw.strict = !tol
			client.VerifDialTimeout = kw.dial
			ev["got"] = "Bad"
			r := kw.connect(30000)
			if r == "ok" {
				ev["got"] = "Good"
			}
			ev["err"] = fmt.Sprintf("%.200s", fmt.Sprint(r, kw.err, kw.notes))
			for _, p := range kw.dialed {
				p.close()
			}
			synctest.Wait()
			time.Sleep(time.Minute)
		}
		// the rejected certificate is kept for inspection
		kept := []string{}
		fs, _ := os.ReadDir(rej)
		for _, f := range fs {
			b, _ := os.ReadFile(filepath.Join(rej, f.Name()))
			th := sha1.Sum(w.certs["leaf"].Raw)
			if bl, _ := pem.Decode(b); bl != nil && bytes.Equal(bl.Bytes, w.certs["leaf"].Raw) && f.Name() == fmt.Sprintf("%x.crt", th) {
				kept = append(kept, "leaf")
			} else {
				kept = append(kept, f.Name())
			}
		}
		ev["kept"] = strings.Join(kept, ",")
		os.RemoveAll(dir)
		rec.emit(ev)
	}
}
