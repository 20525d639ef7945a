package sim

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/aws-sdk-go-v2/service/kafka"
	"github.com/aws/go-kafka-event-source/msk"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

type mskOp struct {
	Op   string // config, confign, connect, rotate, credfail, credok, fault, options
	N    int
	New  bool
	What string // fault: list, boot
	Err  string
}

type mskScn struct {
	ID       string
	Name     string
	Auth     int
	Region   string
	Default  bool // NewMskCluster with the settings of the environment
	EnvReg   string
	Tls      bool
	Cert     string // a client certificate with this name
	User     string
	Pass     string
	Token    bool
	Cached   bool // the credentials provider is behind a cache
	Clusters []struct {
		Name, Arn string
		NoArn     bool
	}
	Page    int
	Kinds   map[string]int // endpoint kind -> how many brokers
	Retry   bool
	Options int // how many times client options are given
	Over    bool
	Ops     []mskOp
}

var kindNames = []string{"", "Tls", "SaslScram", "SaslIam", "PublicTls", "PublicSaslScram", "PublicSaslIam"}

type mskCred struct{ key, secret, token string }

type mskSim struct {
	s      mskScn
	tr     *Trace
	mu     sync.Mutex
	creds  []mskCred
	cur    int
	fail   string
	faults map[string][]string
	addrs  map[string][]string // kind -> addresses
	ca     *x509.Certificate
	caKey  *ecdsa.PrivateKey
	conns  map[net.Conn]bool
	cache  *aws.CredentialsCache
	msgs   []string
}

func (m *mskSim) msgFor(what string) string {
	x := fmt.Sprintf("%s <%d>", what, len(m.msgs))
	m.msgs = append(m.msgs, x)
	return x
}

// said: which of the messages the error contains
func (m *mskSim) said(err string) []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	r := []string{}
	for _, x := range m.msgs {
		if strings.Contains(err, x) {
			r = append(r, x)
		}
	}
	return r
}

func (m *mskSim) must(err error) {
	if err != nil {
		Die("%v", err)
	}
}

// --- credentials
func (m *mskSim) newCred() mskCred {
	c := mskCred{fmt.Sprintf("AKID%d", len(m.creds)), fmt.Sprintf("secret/%d+", len(m.creds)), ""}
	if m.s.Token {
		c.token = fmt.Sprintf("token/%d==", len(m.creds))
	}
	return c
}

func (m *mskSim) Retrieve(ctx context.Context) (aws.Credentials, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.fail != "" {
		return aws.Credentials{}, errors.New(m.fail)
	}
	c := m.creds[m.cur]
	return aws.Credentials{AccessKeyID: c.key, SecretAccessKey: c.secret, SessionToken: c.token, Source: "verif"}, nil
}

// --- the AWS side
func (m *mskSim) fault(what string) (code, msg string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if f := m.faults[what]; len(f) > 0 {
		m.faults[what] = f[1:]
		return f[0], m.msgFor("message")
	}
	return "", ""
}

func (m *mskSim) Do(r *http.Request) (*http.Response, error) {
	resp := func(status int, code string, body any) (*http.Response, error) {
		b, _ := json.Marshal(body)
		h := http.Header{"Content-Type": {"application/json"}}
		if code != "" {
			h.Set("X-Amzn-Errortype", code)
		}
		return &http.Response{StatusCode: status, Status: strconv.Itoa(status), Header: h, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
	}
	// who asks
	key, region := "", ""
	if a := r.Header.Get("Authorization"); strings.Contains(a, "Credential=") {
		f := strings.Split(strings.SplitN(strings.SplitN(a, "Credential=", 2)[1], ",", 2)[0], "/")
		key, region = f[0], f[2]
	}
	e := E{"key": key, "token": r.Header.Get("X-Amz-Security-Token"), "region": region, "host": r.URL.Host, "method": r.Method}
	fails := func(what string) (*http.Response, error, bool) {
		code, msg := m.fault(what)
		switch code {
		case "":
			return nil, nil, false
		case "net":
			e["err"], e["msg"] = code, msg
			m.tr.Log(e)
			return nil, errors.New(msg), true
		}
		e["err"], e["msg"] = code, msg
		m.tr.Log(e)
		status := map[string]int{"ForbiddenException": 403, "NotFoundException": 404, "BadRequestException": 400, "InternalServerErrorException": 500, "ServiceUnavailableException": 503, "TooManyRequestsException": 429}[code]
		re, err := resp(status, code, map[string]string{"message": msg, "invalidParameter": "x"})
		return re, err, true
	}
	e["err"], e["msg"] = "", ""
	switch {
	case r.URL.Path == "/v1/clusters":
		e["ev"] = "list"
		q := r.URL.Query()
		e["filter"], e["next"] = q.Get("clusterNameFilter"), q.Get("nextToken")
		if re, err, ok := fails("list"); ok {
			return re, err
		}
		at := 0
		if t := q.Get("nextToken"); t != "" {
			at, _ = strconv.Atoi(strings.TrimPrefix(t, "page/"))
		}
		var list []map[string]any
		i, n := 0, 0
		next := ""
		for _, c := range m.s.Clusters {
			if !strings.HasPrefix(c.Name, q.Get("clusterNameFilter")) {
				continue
			}
			if i++; i <= at {
				continue
			}
			if n == m.s.Page {
				next = fmt.Sprintf("page/%d", i-1)
				break
			}
			n++
			x := map[string]any{"clusterName": c.Name, "clusterArn": c.Arn}
			if c.NoArn {
				delete(x, "clusterArn")
			}
			list = append(list, x)
		}
		out := map[string]any{"clusterInfoList": list}
		if next != "" {
			out["nextToken"] = next
		}
		m.tr.Log(e)
		return resp(200, "", out)
	case strings.HasPrefix(r.URL.Path, "/v1/clusters/") && strings.HasSuffix(r.URL.Path, "/bootstrap-brokers"):
		p := r.URL.EscapedPath()
		arn, _ := url.PathUnescape(strings.TrimSuffix(strings.TrimPrefix(p, "/v1/clusters/"), "/bootstrap-brokers"))
		e["ev"], e["arn"] = "boot", arn
		if re, err, ok := fails("boot"); ok {
			return re, err
		}
		out := map[string]string{}
		ks := []string{}
		for k, a := range m.addrs {
			if len(a) > 0 {
				out["bootstrapBrokerString"+k] = strings.Join(a, ",")
				ks = append(ks, k)
			}
		}
		e["kinds"] = ks
		m.tr.Log(e)
		return resp(200, "", out)
	}
	e["ev"], e["path"] = "call", r.URL.Path
	m.tr.Log(e)
	return resp(404, "NotFoundException", map[string]string{"message": "?"})
}

// --- names
// serveDNS answers every question for an address below amazonaws.com with 127.0.0.1
func serveDNS(c net.Conn) {
	defer c.Close()
	for {
		var szb [2]byte
		if _, err := io.ReadFull(c, szb[:]); err != nil {
			return
		}
		q := make([]byte, binary.BigEndian.Uint16(szb[:]))
		if _, err := io.ReadFull(c, q); err != nil {
			return
		}
		name, i := "", 12
		for q[i] != 0 {
			name += string(q[i+1:i+1+int(q[i])]) + "."
			i += int(q[i]) + 1
		}
		typ := binary.BigEndian.Uint16(q[i+1:])
		a := append([]byte{}, q[:i+5]...)
		a[2], a[3] = 0x81, 0x80
		binary.BigEndian.PutUint16(a[6:], 0)
		binary.BigEndian.PutUint16(a[8:], 0)
		binary.BigEndian.PutUint16(a[10:], 0)
		if !strings.HasSuffix(name, ".amazonaws.com.") {
			a[3] = 0x83
		} else if typ == 1 {
			binary.BigEndian.PutUint16(a[6:], 1)
			a = append(a, 0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 127, 0, 0, 1)
		}
		c.Write(append([]byte{byte(len(a) >> 8), byte(len(a))}, a...))
	}
}

// --- the brokers
func (m *mskSim) cert(cn string, dns []string, ca bool) tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	m.must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(24 * time.Hour), DNSNames: dns, IsCA: ca, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	parent, pk := m.ca, m.caKey
	if ca {
		parent, pk = t, k
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &k.PublicKey, pk)
	m.must(err)
	leaf, err := x509.ParseCertificate(der)
	m.must(err)
	if ca {
		m.ca, m.caKey = leaf, k
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k, Leaf: leaf}
}

type peeked struct {
	net.Conn
	r *bufio.Reader
}

func (p peeked) Read(b []byte) (int, error) { return p.r.Read(b) }

func (m *mskSim) listen(kind string, i int, srv tls.Certificate) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	m.must(err)
	host := fmt.Sprintf("b-%d.%s.abc.c2.kafka.%s.amazonaws.com", i+1, "k"+strings.ToLower(kind), "eu-west-3")
	addr := fmt.Sprintf("%s:%d", host, l.Addr().(*net.TCPAddr).Port)
	pool := x509.NewCertPool()
	pool.AddCert(m.ca)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			m.mu.Lock()
			m.conns[c] = true
			m.mu.Unlock()
			go func() {
				defer func() {
					c.Close()
					m.mu.Lock()
					delete(m.conns, c)
					m.mu.Unlock()
				}()
				r := bufio.NewReader(c)
				b, err := r.Peek(1)
				if err != nil {
					return
				}
				e := E{"ev": "conn", "kind": kind, "addr": addr, "tls": 0, "sni": "", "cert": "", "mech": "", "user": "", "pass": 0, "key": "", "token": "", "secret": -1, "client": "", "fresh": 0}
				var cc net.Conn = peeked{c, r}
				if b[0] == 0x16 {
					t := tls.Server(cc, &tls.Config{Certificates: []tls.Certificate{srv}, ClientAuth: tls.VerifyClientCertIfGiven, ClientCAs: pool})
					if err := t.Handshake(); err != nil {
						m.tr.Log(E{"ev": "tlsfail", "addr": addr, "err": err.Error()})
						return
					}
					st := t.ConnectionState()
					e["tls"], e["sni"] = 1, st.ServerName
					if len(st.PeerCertificates) > 0 {
						e["cert"] = st.PeerCertificates[0].Subject.CommonName
					}
					cc = t
				}
				m.serve(cc, e, host)
			}()
		}
	}()
	return addr
}

func (m *mskSim) serve(c net.Conn, e E, host string) {
	var sc scramServer
	for {
		var szb [4]byte
		if _, err := io.ReadFull(c, szb[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(szb[:])
		if n > 1<<20 {
			return
		}
		buf := make([]byte, n)
		if _, err := io.ReadFull(c, buf); err != nil {
			return
		}
		key, ver := int16(binary.BigEndian.Uint16(buf[0:])), int16(binary.BigEndian.Uint16(buf[2:]))
		corr, body := buf[4:8], buf[8:]
		idl := int16(binary.BigEndian.Uint16(body))
		body = body[2:]
		if idl > 0 {
			e["client"] = string(body[:idl])
			body = body[idl:]
		}
		req := kmsg.RequestForKey(key)
		if req == nil {
			Die("unknown request %d", key)
		}
		req.SetVersion(ver)
		if req.IsFlexible() {
			body = body[1:]
		}
		m.must(req.ReadFrom(body))
		var out kmsg.Response
		stop := false
		switch r := req.(type) {
		case *kmsg.ApiVersionsRequest:
			resp := r.ResponseKind().(*kmsg.ApiVersionsResponse)
			for k, v := range map[int16]int16{3: 9, 17: 1, 18: 3, 36: 2} {
				ak := kmsg.NewApiVersionsResponseApiKey()
				ak.ApiKey, ak.MaxVersion = k, v
				resp.ApiKeys = append(resp.ApiKeys, ak)
			}
			out = resp
		case *kmsg.SASLHandshakeRequest:
			resp := r.ResponseKind().(*kmsg.SASLHandshakeResponse)
			e["mech"] = r.Mechanism
			resp.SupportedMechanisms = []string{r.Mechanism}
			out = resp
		case *kmsg.SASLAuthenticateRequest:
			resp := r.ResponseKind().(*kmsg.SASLAuthenticateResponse)
			switch e["mech"] {
			case "SCRAM-SHA-512":
				b, user, ok, end := sc.step(r.SASLAuthBytes, m.s.Pass)
				e["user"] = user
				if end {
					if ok {
						e["pass"] = 1
					} else {
						resp.ErrorCode, stop = 58, true
					}
				}
				resp.SASLAuthBytes = b
			case "AWS_MSK_IAM":
				m.iam(r.SASLAuthBytes, e, host)
				resp.SASLAuthBytes = []byte(`{"version":"2020_10_22","request-id":"x"}`)
			default:
				resp.ErrorCode, stop = 58, true
			}
			out = resp
		case *kmsg.MetadataRequest:
			resp := r.ResponseKind().(*kmsg.MetadataResponse)
			m.tr.Log(e)
			e = E{"ev": "again"}
			out = resp
		default:
			Die("unexpected request %d", key)
		}
		if stop {
			m.tr.Log(e)
		}
		out.SetVersion(ver)
		o := append([]byte{0, 0, 0, 0}, corr...)
		if out.IsFlexible() && key != 18 {
			o = append(o, 0)
		}
		o = out.AppendTo(o)
		binary.BigEndian.PutUint32(o, uint32(len(o)-4))
		if _, err := c.Write(o); err != nil || stop {
			return
		}
	}
}

// SCRAM-SHA-512, RFC 5802
type scramServer struct {
	first, server, nonce, user string
	salted                     []byte
	n                          int
}

func hm(key []byte, s string) []byte {
	h := hmac.New(sha512.New, key)
	h.Write([]byte(s))
	return h.Sum(nil)
}

func (s *scramServer) step(b []byte, pass string) (out []byte, user string, ok, end bool) {
	s.n++
	f := map[string]string{}
	for _, x := range strings.Split(string(b), ",") {
		if len(x) > 2 && x[1] == '=' {
			f[x[:1]] = x[2:]
		}
	}
	if s.n == 1 {
		s.first = strings.TrimPrefix(string(b), "n,,")
		s.user = strings.NewReplacer("=2C", ",", "=3D", "=").Replace(f["n"])
		s.nonce = f["r"] + "serverpart"
		salt := []byte("salty")
		s.server = "r=" + s.nonce + ",s=" + base64.StdEncoding.EncodeToString(salt) + ",i=4096"
		k, err := pbkdf2.Key(sha512.New, pass, salt, 4096, 64)
		if err != nil {
			Die("%v", err)
		}
		s.salted = k
		return []byte(s.server), s.user, true, false
	}
	without := string(b)[:strings.LastIndex(string(b), ",p=")]
	auth := s.first + "," + s.server + "," + without
	ck := hm(s.salted, "Client Key")
	stored := sha512.Sum512(ck)
	sig := hm(stored[:], auth)
	proof, _ := base64.StdEncoding.DecodeString(f["p"])
	ok = len(proof) == len(ck) && f["r"] == s.nonce
	if ok {
		for i := range ck {
			ok = ok && proof[i] == ck[i]^sig[i]
		}
	}
	return []byte("v=" + base64.StdEncoding.EncodeToString(hm(hm(s.salted, "Server Key"), auth))), s.user, ok, true
}

// iam looks at the payload as https://github.com/aws/aws-msk-iam-auth describes it
func (m *mskSim) iam(b []byte, e E, host string) {
	var p map[string]string
	if json.Unmarshal(b, &p) != nil {
		return
	}
	f := strings.SplitN(p["x-amz-credential"], "/", 2)
	e["key"], e["token"] = f[0], p["x-amz-security-token"]
	if len(f) != 2 {
		return
	}
	sc := strings.Split(f[1], "/")
	if len(sc) != 4 || sc[2] != "kafka-cluster" || sc[3] != "aws4_request" || p["host"] != host {
		return
	}
	if t, err := time.Parse("20060102T150405Z", p["x-amz-date"]); err == nil && time.Since(t) < 100*time.Second {
		e["fresh"] = 1
	}
	q := url.Values{}
	for k, n := range map[string]string{"action": "Action", "x-amz-algorithm": "X-Amz-Algorithm", "x-amz-credential": "X-Amz-Credential", "x-amz-date": "X-Amz-Date",
		"x-amz-expires": "X-Amz-Expires", "x-amz-signedheaders": "X-Amz-SignedHeaders", "x-amz-security-token": "X-Amz-Security-Token"} {
		if v, ok := p[k]; ok {
			q.Set(n, v)
		}
	}
	canon := "GET\n/\n" + strings.ReplaceAll(q.Encode(), "+", "%20") + "\nhost:" + host + "\n\nhost\ne3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"
	h := sha256.Sum256([]byte(canon))
	sts := "AWS4-HMAC-SHA256\n" + p["x-amz-date"] + "\n" + f[1] + "\n" + hex.EncodeToString(h[:])
	mac := func(k []byte, s string) []byte {
		h := hmac.New(sha256.New, k)
		h.Write([]byte(s))
		return h.Sum(nil)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	for i, c := range m.creds {
		k := []byte("AWS4" + c.secret)
		for _, s := range sc {
			k = mac(k, s)
		}
		if hex.EncodeToString(mac(k, sts)) == p["x-amz-signature"] {
			e["secret"] = i
		}
	}
}

func runMsk(s mskScn, tr *Trace) {
	m := &mskSim{s: s, tr: tr, faults: map[string][]string{}, addrs: map[string][]string{}, conns: map[net.Conn]bool{}}
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(context.Context, string, string) (net.Conn, error) {
		a, b := net.Pipe()
		go serveDNS(b)
		return a, nil
	}}
	m.creds = append(m.creds, m.newCred())
	m.cert("ca", nil, true)
	srv := m.cert("broker", []string{"*.ktls.abc.c2.kafka.eu-west-3.amazonaws.com", "*.k.abc.c2.kafka.eu-west-3.amazonaws.com", "*.ksaslscram.abc.c2.kafka.eu-west-3.amazonaws.com",
		"*.ksasliam.abc.c2.kafka.eu-west-3.amazonaws.com", "*.kpublictls.abc.c2.kafka.eu-west-3.amazonaws.com", "*.kpublicsaslscram.abc.c2.kafka.eu-west-3.amazonaws.com",
		"*.kpublicsasliam.abc.c2.kafka.eu-west-3.amazonaws.com", "*.kother.abc.c2.kafka.eu-west-3.amazonaws.com"}, false)
	all := map[string][]string{}
	for _, k := range kindNames {
		for i := 0; i < s.Kinds[k]; i++ {
			m.addrs[k] = append(m.addrs[k], m.listen(k, i, srv))
		}
		all[k] = append([]string{}, m.addrs[k]...)
	}
	over := ""
	if s.Over {
		over = m.listen("Other", 0, srv)
	}
	type cj struct {
		Name string `json:"name"`
		Arn  string `json:"arn"`
	}
	cls := []cj{}
	for _, c := range s.Clusters {
		a := c.Arn
		if c.NoArn {
			a = ""
		}
		cls = append(cls, cj{c.Name, a})
	}
	b2i := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	region := s.Region
	if s.Default && s.EnvReg != "" {
		region = s.EnvReg
	}
	brokers := []E{}
	for _, k := range kindNames {
		if len(all[k]) > 0 {
			brokers = append(brokers, E{"kind": k, "addrs": all[k]})
		}
	}
	tr.Log(E{"ev": "cfg", "name": s.Name, "auth": s.Auth, "region": region, "tls": b2i(s.Tls), "cert": s.Cert, "user": s.User, "clusters": cls, "brokers": brokers, "over": over,
		"key": m.creds[0].key, "token": m.creds[0].token, "client": fmt.Sprintf("client-%d", s.Options)})

	var cl *msk.MskCluster
	if s.Default {
		for k, v := range map[string]string{"AWS_ACCESS_KEY_ID": m.creds[0].key, "AWS_SECRET_ACCESS_KEY": m.creds[0].secret, "AWS_SESSION_TOKEN": m.creds[0].token, "AWS_REGION": s.EnvReg,
			"AWS_CONFIG_FILE": "/nonexistent/config", "AWS_SHARED_CREDENTIALS_FILE": "/nonexistent/credentials", "AWS_EC2_METADATA_DISABLED": "true"} {
			if v == "" {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, v)
			}
		}
		for _, k := range []string{"AWS_PROFILE", "AWS_DEFAULT_REGION", "AWS_DEFAULT_PROFILE"} {
			os.Unsetenv(k)
		}
		cl = msk.NewMskCluster(s.Name, msk.AuthType(s.Auth), s.Region, func(o *kafka.Options) {
			o.HTTPClient = m
			if !s.Retry {
				o.Retryer = aws.NopRetryer{}
			}
		})
	} else {
		cfg := aws.Config{Region: s.Region, HTTPClient: m, Credentials: m}
		if s.Cached {
			m.cache = aws.NewCredentialsCache(m)
			cfg.Credentials = m.cache
		}
		if !s.Retry {
			cfg.Retryer = func() aws.Retryer { return aws.NopRetryer{} }
		}
		cl = msk.NewMskClusterWithClientConfig(s.Name, msk.AuthType(s.Auth), cfg)
	}
	if s.Tls {
		pool := x509.NewCertPool()
		pool.AddCert(m.ca)
		t := &tls.Config{RootCAs: pool}
		if s.Cert != "" {
			t.Certificates = []tls.Certificate{m.cert(s.Cert, nil, false)}
		}
		cl = cl.WithTlsConfig(t)
	}
	if s.User != "" {
		cl = cl.WithScramUserPass(s.User, s.Pass)
	}
	for i := 1; i <= s.Options; i++ {
		opts := []kgo.Opt{kgo.ClientID(fmt.Sprintf("client-%d", i))}
		if s.Over {
			opts = append(opts, kgo.SeedBrokers(over))
		} else if i < s.Options { // replaced by the next call
			opts = append(opts, kgo.SeedBrokers("127.0.0.1:9"))
		}
		cl = cl.WithClientOptions(opts...)
	}
	var opts []kgo.Opt
	var client *kgo.Client
	var omu sync.Mutex
	n := 0
	config := func() {
		omu.Lock()
		n++
		id := n
		omu.Unlock()
		tr.Log(E{"ev": "config", "id": id})
		o, err := cl.Config()
		if err != nil {
			tr.Log(E{"ev": "configured", "id": id, "ok": 0, "err": err.Error(), "msgs": m.said(err.Error())})
			return
		}
		tr.Log(E{"ev": "configured", "id": id, "ok": 1, "err": "", "msgs": []string{}})
		omu.Lock()
		opts = o
		omu.Unlock()
	}
	for _, o := range s.Ops {
		switch o.Op {
		case "config":
			config()
		case "confign":
			var wg sync.WaitGroup
			for i := 0; i < o.N; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); config() }()
			}
			wg.Wait()
		case "fault":
			m.mu.Lock()
			for i := 0; i < o.N; i++ {
				m.faults[o.What] = append(m.faults[o.What], o.Err)
			}
			m.mu.Unlock()
		case "clear":
			m.mu.Lock()
			m.faults = map[string][]string{}
			m.mu.Unlock()
		case "rotate":
			m.mu.Lock()
			m.creds = append(m.creds, m.newCred())
			m.cur = len(m.creds) - 1
			c := m.creds[m.cur]
			m.mu.Unlock()
			if m.cache != nil {
				m.cache.Invalidate()
			}
			tr.Log(E{"ev": "rotate", "n": m.cur, "key": c.key, "token": c.token})
		case "credfail":
			m.mu.Lock()
			m.fail = m.msgFor("no credentials")
			m.mu.Unlock()
			if m.cache != nil {
				m.cache.Invalidate()
			}
			tr.Log(E{"ev": "credfail", "msg": m.fail})
		case "credok":
			m.mu.Lock()
			m.fail = ""
			m.mu.Unlock()
			tr.Log(E{"ev": "credok"})
		case "connect":
			if opts == nil {
				continue
			}
			if o.New || client == nil {
				if client != nil {
					client.Close()
				}
				c, err := kgo.NewClient(append([]kgo.Opt{kgo.RequestRetries(0), kgo.RetryBackoffFn(func(int) time.Duration { return time.Millisecond })}, opts...)...)
				if err != nil {
					tr.Log(E{"ev": "noclient", "err": err.Error()})
					continue
				}
				client = c
			} else {
				m.mu.Lock()
				for c := range m.conns {
					c.Close()
				}
				m.mu.Unlock()
				time.Sleep(5 * time.Millisecond)
			}
			tr.Log(E{"ev": "round"})
			// The client goes through its seeds in turn. The first time round it may notice that connections are gone.
			ok, last, n := 0, "", len(client.SeedBrokers())
			for i := 0; i < 2*n; i++ {
				ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
				_, err := client.Request(ctx, kmsg.NewPtrMetadataRequest())
				cancel()
				if err != nil {
					last = err.Error()
				} else if i >= n {
					ok++
				}
			}
			tr.Log(E{"ev": "rounded", "n": n, "ok": ok, "err": last, "msgs": m.said(last)})
		default:
			Die("unknown op %q", o.Op)
		}
	}
	tr.Log(E{"ev": "end"})
}
