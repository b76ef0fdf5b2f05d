package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"
)

// authority is a certificate authority made up for this run.
type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	file string // PEM file with its certificate
}

type pair struct {
	cert tls.Certificate
	crt  string
	key  string
}

type pki struct {
	dir                         string
	ca, other, clients          *authority
	server, wrongHost, untrust  pair
	expired                     pair
	client, client2             pair
	empty, missing, notPem, dup string
}

var (
	pkiOnce sync.Once
	thePki  *pki
)

func must(err error) {
	if err != nil {
		fatal(err)
	}
}

var serial int64 = 1

func writePem(path, kind string, der []byte) string {
	must(os.WriteFile(path, pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: der}), 0600))
	return path
}

func newCA(dir, name string) *authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	serial++
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, IsCA: true,
		BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	must(err)
	cert, err := x509.ParseCertificate(der)
	must(err)
	return &authority{cert, key, writePem(filepath.Join(dir, name+".pem"), "CERTIFICATE", der)}
}

func (a *authority) issue(dir, name string, expired bool, hosts ...string) pair {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	serial++
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name},
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		NotBefore:   time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour)}
	if expired {
		tmpl.NotAfter = time.Now().Add(-24 * time.Hour)
	}
	for _, h := range hosts {
		if ip := net.ParseIP(h); ip != nil {
			tmpl.IPAddresses = append(tmpl.IPAddresses, ip)
		} else {
			tmpl.DNSNames = append(tmpl.DNSNames, h)
		}
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, a.cert, &key.PublicKey, a.key)
	must(err)
	kder, err := x509.MarshalECPrivateKey(key)
	must(err)
	p := pair{crt: writePem(filepath.Join(dir, name+".crt"), "CERTIFICATE", der),
		key: writePem(filepath.Join(dir, name+".key"), "EC PRIVATE KEY", kder)}
	p.cert, err = tls.LoadX509KeyPair(p.crt, p.key)
	must(err)
	return p
}

// certs makes the keys and certificates of this run, in a directory that python removes.
func certs() *pki {
	pkiOnce.Do(func() {
		dir, err := os.MkdirTemp("", "pki")
		must(err)
		dir = filepath.Join(dir, "Keys & c=1 +%41#?;ü")
		must(os.Mkdir(dir, 0700))
		p := &pki{dir: dir, ca: newCA(dir, "ca"), other: newCA(dir, "other"), clients: newCA(dir, "clients")}
		p.server = p.ca.issue(dir, "server", false, "127.0.0.1", "localhost", "::1")
		p.wrongHost = p.ca.issue(dir, "wronghost", false, "example.org")
		p.expired = p.ca.issue(dir, "expired", true, "127.0.0.1", "localhost")
		p.untrust = p.other.issue(dir, "untrusted", false, "127.0.0.1", "localhost")
		p.client = p.clients.issue(dir, "client one", false)
		p.client2 = p.other.issue(dir, "client2", false)
		p.missing = filepath.Join(dir, "missing.pem")
		p.empty = filepath.Join(dir, "empty.pem")
		must(os.WriteFile(p.empty, nil, 0600))
		p.notPem = filepath.Join(dir, "not.pem")
		must(os.WriteFile(p.notPem, []byte("nothing of use\n"), 0600))
		thePki = p
	})
	return thePki
}
