// genpki writes the fixed keys and certificates used by the harness (run once; the output is committed).
package main

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net/url"
	"os"
	"path/filepath"
	"time"
)

func main() {
	dir := os.Args[1]
	for i, n := range []string{"server", "client1", "client2", "user1", "user2"} {
		key, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			panic(err)
		}
		u, _ := url.Parse("urn:verif:" + n)
		t := &x509.Certificate{
			SerialNumber:          big.NewInt(int64(100 + i)),
			Subject:               pkix.Name{CommonName: "verif " + n},
			NotBefore:             time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC),
			NotAfter:              time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC),
			KeyUsage:              x509.KeyUsageDigitalSignature | x509.KeyUsageContentCommitment | x509.KeyUsageKeyEncipherment | x509.KeyUsageDataEncipherment | x509.KeyUsageCertSign,
			ExtKeyUsage:           []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
			BasicConstraintsValid: true,
			DNSNames:              []string{"localhost"},
			URIs:                  []*url.URL{u},
		}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
		if err != nil {
			panic(err)
		}
		w := func(name, typ string, b []byte) {
			if err := os.WriteFile(filepath.Join(dir, name), pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}), 0o644); err != nil {
				panic(err)
			}
		}
		w(n+".crt", "CERTIFICATE", der)
		w(n+".key", "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(key))
	}
}
