package proc

import (
	"bufio"
	"bytes"
	"context"
	crand "crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/vpbt/kit"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var binary string

func TestMain(m *testing.M) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "bin")
	if err != nil {
		kit.Fatal("%v", err)
	}
	binary = filepath.Join(dir, "recengine")
	// From the harness module, so that nothing is written in /repo
	_, here := os.LookupEnv("VERIF_HARNESS")
	cmd := exec.Command("go", "build", "-buildvcs=false", "-o", binary, "recengine")
	cmd.Dir = os.Getenv("VERIF_HARNESS")
	if !here {
		cmd.Dir = "/verif/harness"
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		kit.Fatal("cannot build the service: %v\n%s", err, out)
	}
	code := m.Run()
	os.RemoveAll(dir)
	os.Exit(code)
}

// patience is how long the service may take for anything, on a busy machine.
const patience = 40 * time.Second

// service is a running process.
type service struct {
	x      *kit.X
	cmd    *exec.Cmd
	addr   string
	output *bytes.Buffer
	exited chan struct{}
	err    error
	client *http.Client
}

// Launch tells how the process is configured.
type Launch struct {
	File     bool `json:"file"`     // in the .env file rather than in the environment
	Relative bool `json:"relative"` // the data directory is given relatively
	Slash    bool `json:"slash"`    // and with a slash at the end
	// Variables (bits) that are set the other way round
	Mixed int `json:"mixed,omitempty"`
	// The file sets those of the environment to something else
	Decoy bool `json:"decoy,omitempty"`
}

// freeAddress returns an address nobody else uses: the host is a loopback one
// chosen at random, so that processes of other cases, which choose theirs at the
// same time, are never mistaken for this one.
func freeAddress() (string, int) {
	var b [3]byte
	if _, err := crand.Read(b[:]); err != nil {
		kit.Fatal("%v", err)
	}
	host := fmt.Sprintf("127.%d.%d.%d", 1+b[0]%250, b[1], 1+b[2]%250)
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		kit.Fatal("listen: %v", err)
	}
	defer l.Close()
	return host, l.Addr().(*net.TCPAddr).Port
}

// spawn starts a process on the address.
func spawn(x *kit.X, dir string, l Launch, host string, port int) *service {
	s := &service{x: x, addr: net.JoinHostPort(host, fmt.Sprint(port)), output: &bytes.Buffer{}, exited: make(chan struct{})}
	path := filepath.Join(dir, "data")
	if l.Relative {
		path = "data"
	}
	if l.Slash {
		path += "/"
	}
	vars := []string{"REC_HOST=" + host, fmt.Sprintf("REC_PORT=%d", port), "REC_PATH=" + path}
	decoys := []string{"REC_HOST=127.0.0.3", fmt.Sprintf("REC_PORT=%d", port-1), "REC_PATH=decoy/"}
	env := ""
	s.cmd = exec.Command(binary)
	s.cmd.Dir = dir
	s.cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GIN_MODE=release"}
	for i := range vars {
		if l.File != (l.Mixed>>i&1 != 0) {
			env += vars[i] + "\n"
			continue
		}
		s.cmd.Env = append(s.cmd.Env, vars[i])
		if l.Decoy {
			env += decoys[i] + "\n"
		}
	}
	if err := os.WriteFile(filepath.Join(dir, ".env"), []byte(env), 0644); err != nil {
		kit.Fatal("%v", err)
	}
	s.cmd.Stdout, s.cmd.Stderr = s.output, s.output
	if err := s.cmd.Start(); err != nil {
		kit.Fatal("cannot start the service: %v", err)
	}
	go func() {
		s.err = s.cmd.Wait()
		close(s.exited)
	}()
	x.Cleanup(func() {
		s.cmd.Process.Kill()
		<-s.exited
	})
	return s
}

// newClient makes a client of a single connection: transports open spare ones
// otherwise, and a connection that has sent nothing delays the shutdown.
func newClient(x *kit.X) *http.Client {
	c := &http.Client{Timeout: patience, Transport: &http.Transport{MaxConnsPerHost: 1}}
	x.Cleanup(c.CloseIdleConnections)
	return c
}

func (s *service) alive() bool {
	select {
	case <-s.exited:
		return false
	default:
		return true
	}
}

// launch starts a process and waits until it answers.
func launch(x *kit.X, dir string, l Launch) *service {
	for try := 0; ; try++ {
		host, port := freeAddress()
		s := spawn(x, dir, l, host, port)
		s.client = newClient(x)
		for until := time.Now().Add(patience); s.alive(); {
			if c, err := net.DialTimeout("tcp", s.addr, time.Second); err == nil {
				c.Close()
				if s.alive() {
					return s
				}
				break
			}
			if time.Now().After(until) {
				x.Failf("the service doesn't listen on %s:\n%s", s.addr, s.output)
			}
			time.Sleep(2 * time.Millisecond)
		}
		// Someone may have taken the port
		if try > 3 || !strings.Contains(s.output.String(), "address already in use") {
			x.Failf("the service doesn't start: %v\n%s", s.err, s.output)
		}
	}
}

// end waits for the process to terminate.
func (s *service) end(why string) {
	select {
	case <-s.exited:
	case <-time.After(patience):
		s.x.Failf("the service doesn't terminate (%s):\n%s", why, s.tail())
	}
}

func (s *service) tail() string {
	if s.alive() {
		return "" // the buffer is being written
	}
	out := s.output.String()
	return out[max(0, len(out)-2000):]
}

func (s *service) request(client *http.Client, method, path, body string, wide ...int) (int, []byte, error) {
	req, err := http.NewRequest(method, "http://"+s.addr+path, strings.NewReader(body))
	if err != nil {
		kit.Fatal("%v", err)
	}
	req.Header.Set("Content-Type", "application/json")
	for _, kb := range wide {
		for i := 0; i < kb; i++ {
			req.Header.Set(fmt.Sprintf("X-Other-%d", i), strings.Repeat("x", 1000))
		}
	}
	resp, err := client.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	data, err := io.ReadAll(resp.Body)
	return resp.StatusCode, data, err
}

// Req is a request of a client about one of its names.
type Req struct {
	K     string `json:"k"` // create, update, get
	Name  int    `json:"n"`
	To    int    `json:"to,omitempty"`
	Limit uint64 `json:"limit,omitempty"`
	Wide  int    `json:"wide,omitempty"` // KB of other headers
	Tall  int    `json:"tall,omitempty"` // KB of spaces in the body
}

// Phase is what happens between two starts of the service.
type Phase struct {
	Clients [][]Req `json:"clients"`
	End     string  `json:"end"`   // kill, term, int
	After   int     `json:"after"` // us after the clients begin; -1: after they end
	Idle    int     `json:"idle"`  // connections left open
	Junk    []byte  `json:"junk"`  // sent over a connection at first
	Config  Launch  `json:"config"`
	Taken   bool    `json:"taken"` // a second process is started on the same address
	Slow    int     `json:"slow"`  // ms after the signal the rest of a request comes, if not 0
	Stuck   bool    `json:"stuck"` // the rest of a request never comes
}

// ProcCase is a history of the service.
type ProcCase struct {
	Crowd  int     `json:"crowd"` // other namespaces, registered beforehand
	Phases []Phase `json:"phases"`
}

func factorOf(limit uint64) float32 { return float32(limit%4) / 4 }

func clientName(client, name int) string { return fmt.Sprintf("c%dn%d", client, name) }

type names map[string]uint64

func (n names) String() string {
	var l []string
	for k, v := range n {
		l = append(l, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(l)
	return "[" + strings.Join(l, " ") + "]"
}

func (n names) equal(m names) bool { return n.String() == m.String() }

func (n names) clone() names {
	c := names{}
	for k, v := range n {
		c[k] = v
	}
	return c
}

// apply performs the request on the model.
func (n names) apply(client int, r Req) (ok bool) {
	name, to := clientName(client, r.Name), clientName(client, r.To)
	_, exists := n[name]
	_, taken := n[to]
	switch r.K {
	case "create":
		if exists {
			return false
		}
		n[name] = r.Limit
	case "update":
		if !exists || name != to && taken {
			return false
		}
		delete(n, name)
		n[to] = r.Limit
	default:
		return exists
	}
	return true
}

// list returns the namespaces of each client.
func (s *service) list(crowd int, when string) []names {
	status, data, err := s.request(s.client, "GET", "/api/v1/namespaces", "")
	if err != nil || status != 200 {
		s.x.Failf("%s: listing failed: status %d %v\n%s", when, status, err, s.tail())
	}
	var l []struct {
		Name  string `json:"name"`
		Type  string `json:"type"`
		Limit uint64 `json:"maxSimilarProfiles"`
	}
	if err := json.Unmarshal(data, &l); err != nil {
		s.x.Failf("%s: the list is %q", when, data)
	}
	out := make([]names, clients)
	for i := range out {
		out[i] = names{}
	}
	others := map[string]bool{}
	for _, ns := range l {
		if strings.HasPrefix(ns.Name, "crowd") && ns.Type == "like" && ns.Limit == 4 && !others[ns.Name] {
			others[ns.Name] = true
			continue
		}
		var client, name int
		if n, _ := fmt.Sscanf(ns.Name, "c%dn%d", &client, &name); n != 2 || client >= clients || ns.Type != "like" {
			s.x.Failf("%s: the list has %+v", when, ns)
		}
		if _, twice := out[client][ns.Name]; twice {
			s.x.Failf("%s: the list has %s twice", when, ns.Name)
		}
		out[client][ns.Name] = ns.Limit
	}
	if len(others) != crowd {
		s.x.Failf("%s: %d of %d other namespaces are listed", when, len(others), crowd)
	}
	return out
}

// The last of the clients is the one whose requests are being received at the
// time of a signal.
const clients = 4

// pending is a request that is being received by the service.
type pending struct {
	conn net.Conn
	in   *bufio.Reader
	body string
}

// begin sends a request but its body, and waits until it's being processed.
func begin(x *kit.X, s *service, name string, limit uint64) *pending {
	conn, err := net.DialTimeout("tcp", s.addr, patience)
	if err != nil {
		x.Failf("no connection: %v", err)
	}
	x.Cleanup(func() { conn.Close() })
	conn.SetDeadline(time.Now().Add(patience))
	p := &pending{conn, bufio.NewReader(conn), fmt.Sprintf(`{"name":%q,"type":"like","maxSimilarProfiles":%d,"dislikeFactor":%v}`, name, limit, factorOf(limit))}
	fmt.Fprintf(conn, "POST /api/v1/namespaces HTTP/1.1\r\nHost: localhost\r\nContent-Type: application/json\r\nExpect: 100-continue\r\nContent-Length: %d\r\n\r\n", len(p.body))
	// Answered as soon as the body is being read
	line, err := p.in.ReadString('\n')
	if err != nil || !strings.HasPrefix(line, "HTTP/1.1 100") {
		x.Failf("a request that expects to be continued is answered %q %v", line, err)
	}
	p.in.ReadString('\n')
	return p
}

// finish sends the body and returns the status of the response.
func (p *pending) finish() (int, error) {
	if _, err := p.conn.Write([]byte(p.body)); err != nil {
		return 0, err
	}
	resp, err := http.ReadResponse(p.in, nil)
	if err != nil {
		return 0, err
	}
	defer resp.Body.Close()
	_, err = io.ReadAll(resp.Body)
	return resp.StatusCode, err
}

// drains starts other processes and tells whether any of them answers the
// request it is receiving when asked to terminate, so many milliseconds later.
func drains(x *kit.X, sig os.Signal, delay int) bool {
	for i := 0; i < 3; i++ {
		dir, err := os.MkdirTemp(x.Dir(), "drain")
		if err != nil {
			kit.Fatal("%v", err)
		}
		os.Mkdir(filepath.Join(dir, "data"), 0755)
		s := launch(x, dir, Launch{})
		time.Sleep(3 * time.Second)
		p := begin(x, s, "drain", 4)
		s.cmd.Process.Signal(sig)
		time.Sleep(time.Duration(delay) * time.Millisecond)
		status, _ := p.finish()
		s.end("signal")
		if status == 201 {
			return true
		}
	}
	return false
}

// registry makes an instance of the registry in this process.
func registry(dir string) *domain.NamespaceService {
	os.Setenv("REC_PATH", dir)
	defer os.Unsetenv("REC_PATH")
	return domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
}

// terminates starts another process, gives it plenty of time and signals it.
func terminates(x *kit.X, dir string, sig os.Signal) error {
	for i := 0; i < 3; i++ {
		s := launch(x, dir, Launch{})
		time.Sleep(3 * time.Second)
		s.cmd.Process.Signal(sig)
		s.end("signal")
		if s.err != nil {
			return s.err
		}
	}
	return nil
}

func TestC28(t *testing.T) {
	run := func(x *kit.X, c ProcCase) {
		dir, err := filepath.EvalSymlinks(x.Dir())
		if err != nil {
			kit.Fatal("%v", err)
		}
		if err := os.Mkdir(filepath.Join(dir, "data"), 0755); err != nil {
			kit.Fatal("%v", err)
		}
		if c.Crowd > 0 {
			svc := registry(filepath.Join(dir, "data"))
			for i := 0; i < c.Crowd; i++ {
				name, _ := valueobjects.ParseNamespaceName(fmt.Sprintf("crowd%d", i))
				if _, err := svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: name, Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: 4}); err != nil {
					x.Failf("creating %s: %v", name.Value(), err)
				}
			}
		}
		// What the namespaces of each client may be
		possible := make([][]names, clients)
		for i := range possible {
			possible[i] = []names{{}}
		}
		settle := func(found []names, when string) {
			for i := range possible {
				good := false
				for _, p := range possible[i] {
					good = good || p.equal(found[i])
				}
				if !good {
					x.Failf("%s: the namespaces of client %d are %v, expected %v", when, i, found[i], possible[i])
				}
				possible[i] = []names{found[i]}
			}
		}
		midway := 0
		for n, phase := range c.Phases {
			when := fmt.Sprintf("phase %d", n)
			s := launch(x, dir, phase.Config)
			settle(s.list(c.Crowd, when), when+", started")
			// The dislike factors, too, as a fresh instance loads them
			if _, err := os.Stat(filepath.Join(dir, "data", "namespaces.json")); err == nil {
				svc := registry(filepath.Join(dir, "data"))
				if err := svc.LoadNamespaces(); err != nil {
					x.Failf("%s: the registration doesn't load: %v", when, err)
				}
				for _, ns := range svc.GetNamespaces() {
					if ns.GetDislikeFactor() != factorOf(uint64(ns.GetMaxSimilarProfiles())) {
						x.Failf("%s: %s has the limit %d and the factor %v, never requested together", when, ns.GetName().Value(), ns.GetMaxSimilarProfiles(), ns.GetDislikeFactor())
					}
				}
			}
			if phase.Junk != nil {
				if conn, err := net.DialTimeout("tcp", s.addr, patience); err == nil {
					conn.Write(phase.Junk)
					conn.Close()
				}
			}
			var idle []net.Conn
			for i := 0; i < phase.Idle; i++ {
				conn, err := net.DialTimeout("tcp", s.addr, patience)
				if err != nil {
					x.Failf("%s: no connection: %v", when, err)
				}
				// Make it a connection that waits for its next request
				conn.SetDeadline(time.Now().Add(patience))
				fmt.Fprintf(conn, "GET /api/v1/namespaces HTTP/1.1\r\nHost: localhost\r\n\r\n")
				conn.Read(make([]byte, 1))
				idle = append(idle, conn)
			}
			if phase.Taken {
				host, port, _ := net.SplitHostPort(s.addr)
				var number int
				fmt.Sscan(port, &number)
				other := spawn(x, dir, Launch{}, host, number)
				other.end("its address is taken")
				if other.err == nil {
					x.Failf("%s: a service whose address is taken terminates with success", when)
				}
				x.Label("taken addresses")
			}
			if phase.End != "kill" {
				// It answers just before it gets ready for signals
				time.Sleep(200 * time.Millisecond)
			}
			// Requests
			var wg sync.WaitGroup
			ended := make(chan struct{})
			complaints := make([]string, clients)
			var mu sync.Mutex
			asked := false
			for i := range phase.Clients {
				wg.Add(1)
				client := newClient(x)
				go func() {
					defer wg.Done()
					m := possible[i][0].clone()
					for _, r := range phase.Clients[i] {
						name := clientName(i, r.Name)
						method, path, body := "POST", "/api/v1/namespaces", fmt.Sprintf(`{"name":%q,"type":"like","maxSimilarProfiles":%d,"dislikeFactor":%v}`, name, r.Limit, factorOf(r.Limit))
						switch r.K {
						case "update":
							method, path = "PUT", path+"/"+name
							body = fmt.Sprintf(`{"name":%q,"maxSimilarProfiles":%d,"dislikeFactor":%v}`, clientName(i, r.To), r.Limit, factorOf(r.Limit))
						case "get":
							method, path, body = "GET", path+"/"+name, ""
						}
						if body != "" {
							body = body[:1] + strings.Repeat(" ", r.Tall<<10) + body[1:]
						}
						status, _, err := s.request(client, method, path, body, r.Wide)
						after := m.clone()
						ok := after.apply(i, r)
						if err != nil {
							mu.Lock()
							defer mu.Unlock()
							if !asked {
								complaints[i] = fmt.Sprintf("%+v got no response: %v", r, err)
							}
							// It may have been carried out
							possible[i] = []names{m, after}
							return
						}
						if (status < 300) != ok || status >= 500 {
							complaints[i] = fmt.Sprintf("%+v got the status %d having %v", r, status, m)
							return
						}
						m = after
					}
					possible[i] = []names{m}
				}()
			}
			go func() {
				wg.Wait()
				close(ended)
			}()
			if phase.After < 0 {
				<-ended
				settle(s.list(c.Crowd, when), when)
			} else {
				time.Sleep(time.Duration(phase.After) * time.Microsecond)
			}
			select {
			case <-ended:
			default:
				midway++
				x.Label(phase.End + " amid requests")
			}
			mu.Lock()
			asked = true
			mu.Unlock()
			if !s.alive() {
				x.Failf("%s: the service died: %v\n%s", when, s.err, s.tail())
			}
			switch phase.End {
			case "kill":
				s.cmd.Process.Kill()
				s.end("killed")
			case "term", "int":
				sig := syscall.SIGTERM
				if phase.End == "int" {
					sig = syscall.SIGINT
				}
				var slow *pending
				last := possible[clients-1][0]
				name := clientName(clients-1, n)
				limit := uint64(n)*4 + 4
				if phase.Slow > 0 {
					slow = begin(x, s, name, limit)
				}
				if phase.Stuck {
					begin(x, s, clientName(clients-1, n+100), 4)
				}
				s.cmd.Process.Signal(sig)
				if slow != nil {
					time.Sleep(time.Duration(phase.Slow) * time.Millisecond)
					status, err := slow.finish()
					if status != 201 && !drains(x, sig, phase.Slow) {
						x.Failf("%s: a request being received at the signal %s got the status %d (%v)", when, phase.End, status, err)
					}
					more := last.clone()
					more[name] = limit
					possible[clients-1] = []names{more}
					if status != 201 { // a busy machine
						possible[clients-1] = []names{last, more}
					}
					x.Label("requests being received at a signal")
				}
				s.end("signal " + phase.End)
				if phase.Stuck {
					x.Label("signals amid an endless request")
					s.err = nil // it may complain
				}
				// On a busy machine the signal may have come before it was
				// ready after all
				if s.err != nil && terminates(x, dir, sig) != nil {
					x.Failf("%s: the service terminates with %v after the signal %s:\n%s", when, s.err, phase.End, s.tail())
				}
			}
			<-ended
			for _, conn := range idle {
				conn.Close()
			}
			for i, text := range complaints {
				if text != "" {
					x.Failf("%s: client %d: %s\n%s", when, i, text, s.tail())
				}
			}
			x.Label("phases ended by " + phase.End)
		}
		s := launch(x, dir, Launch{})
		settle(s.list(c.Crowd, "the last start"), "the last start")
		s.cmd.Process.Kill()
		s.end("killed")
		if midway > 0 {
			x.NonTrivial()
		}
	}
	unusable := func(x *kit.X, c AddressCase) {
		dir := x.Dir()
		os.Mkdir(filepath.Join(dir, "data"), 0755)
		host, port := c.Host, c.Port
		if c.Busy {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				kit.Fatal("%v", err)
			}
			defer l.Close()
			host, port = "127.0.0.1", l.Addr().(*net.TCPAddr).Port
		}
		s := spawn(x, dir, c.Config, host, port)
		s.end("it cannot listen on " + s.addr)
		var exit *exec.ExitError
		if !errors.As(s.err, &exit) || !exit.Exited() {
			x.Failf("the service that cannot listen on %s terminates with %v:\n%s", s.addr, s.err, s.tail())
		}
		x.NonTrivial()
	}
	unloadable := func(x *kit.X, c DamagedCase) {
		dir := x.Dir()
		data := filepath.Join(dir, "data")
		os.Mkdir(data, 0755)
		saved := filepath.Join(data, "namespaces.json")
		svc := registry(data)
		want := map[string]int{}
		for i := 0; i < c.Count; i++ {
			name, _ := valueobjects.ParseNamespaceName(fmt.Sprintf("name%d", i))
			if _, err := svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: name, Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: uint(i + 4), DislikeFactor: 0.5}); err != nil {
				x.Failf("creating %s: %v", name.Value(), err)
			}
			want[name.Value()] = i + 4
		}
		intact, err := os.ReadFile(saved)
		if err != nil {
			x.Failf("the registration of %d namespaces is not saved: %v", c.Count, err)
		}
		bad := bytes.Clone(intact)
		os.Remove(saved)
		switch c.K {
		case "cut":
			bad = bad[:c.Where%len(bad)]
		case "field":
			var records []map[string]any
			if err := json.Unmarshal(bad, &records); err != nil {
				x.Failf("the saved registration is %q", bad)
			}
			r := records[c.Where%len(records)]
			found := false
			for key := range r {
				switch {
				case strings.EqualFold(key, "name") && c.Field == "name", strings.EqualFold(key, "type") && c.Field == "type",
					strings.EqualFold(key, "maxSimilarProfiles") && c.Field == "limit":
					r[key] = c.Value
					found = true
				}
			}
			if !found { // stored in another way
				return
			}
			if bad, err = json.Marshal(records); err != nil {
				kit.Fatal("%v", err)
			}
		case "other":
			bad = []byte(c.Other)
		}
		switch c.K {
		case "dir":
			err = os.Mkdir(saved, 0755)
		case "loop":
			err = os.Symlink("namespaces.json", saved)
		default:
			err = os.WriteFile(saved, bad, 0644)
		}
		if err != nil {
			kit.Fatal("%v", err)
		}
		host, port := freeAddress()
		s := spawn(x, dir, c.Config, host, port)
		s.client = newClient(x)
		for until := time.Now().Add(patience); s.alive(); time.Sleep(2 * time.Millisecond) {
			if status, body, err := s.request(s.client, "GET", "/api/v1/namespaces", ""); err == nil {
				x.Failf("the registration cannot be loaded (%s), but the service starts and lists (status %d) %q", c.K, status, body)
			}
			if time.Now().After(until) {
				x.Failf("the registration cannot be loaded (%s), but the service doesn't terminate", c.K)
			}
		}
		var exit *exec.ExitError
		if !errors.As(s.err, &exit) || !exit.Exited() {
			x.Failf("the service that cannot load the registration (%s) terminates with %v:\n%s", c.K, s.err, s.tail())
		}
		// Nothing is lost
		info, err := os.Lstat(saved)
		if err != nil || info.IsDir() != (c.K == "dir") || (info.Mode()&os.ModeSymlink != 0) != (c.K == "loop") {
			x.Failf("the registration that cannot be loaded (%s) has been replaced: %v %v", c.K, info, err)
		}
		if info.Mode().IsRegular() {
			if after, err := os.ReadFile(saved); err != nil || !bytes.Equal(after, bad) {
				x.Failf("the registration %q that cannot be loaded has become %q (%v)", bad, after, err)
			}
		}
		// Once it's repaired
		os.Remove(saved)
		if err := os.WriteFile(saved, intact, 0644); err != nil {
			kit.Fatal("%v", err)
		}
		s = launch(x, dir, c.Config)
		status, body, err := s.request(s.client, "GET", "/api/v1/namespaces", "")
		var l []struct {
			Name  string `json:"name"`
			Limit int    `json:"maxSimilarProfiles"`
		}
		if err != nil || status != 200 || json.Unmarshal(body, &l) != nil {
			x.Failf("repaired: listing is answered %d %q %v", status, body, err)
		}
		for _, ns := range l {
			if want[ns.Name] != ns.Limit {
				x.Failf("repaired: the list is %q, expected %v", body, want)
			}
			delete(want, ns.Name)
		}
		if len(want) > 0 {
			x.Failf("repaired: the list is %q, missing %v", body, want)
		}
		s.cmd.Process.Kill()
		s.end("killed")
		x.Label("unloadable: " + c.K)
		x.NonTrivial()
	}
	kit.Main(t, "C28",
		"histories of the real process: concurrent clients with namespaces of their own, then SIGKILL, SIGTERM or SIGINT at any moment (amid requests, or after), a request whose body comes after the signal or never, idle connections, junk sent to the port, a second process on the same address, several configurations; after each restart the list is compared with what has been acknowledged, the request in progress being optional; exit statuses are checked. Also processes whose address is unusable, and processes whose saved registration cannot be loaded: these must terminate with an error and leave it as it is. Non-trivial: ended amid requests, an unusable address, or an unloadable registration.",
		kit.New("histories", 100, 1500, func(t *rapid.T) ProcCase {
			var c ProcCase
			limit := uint64(0)
			n := rapid.IntRange(1, 4).Draw(t, "phases")
			if kit.Uniform(5).Draw(t, "crowded") == 0 {
				c.Crowd = kit.Size(t, "crowd", 300)
			}
			for i := 0; i < n; i++ {
				p := Phase{End: rapid.SampledFrom([]string{"kill", "kill", "kill", "term", "int"}).Draw(t, "end"),
					After: rapid.SampledFrom([]int{-1, 0, 100, 300, 600, 1000, 1500, 2000, 3000, 5000}).Draw(t, "after")}
				if p.After > 0 {
					p.After += kit.Uniform(p.After).Draw(t, "jitter")
				}
				for j := rapid.IntRange(1, clients-1).Draw(t, "clients"); j > 0; j-- {
					p.Clients = append(p.Clients, kit.Seq(t, "requests", rapid.Custom(func(t *rapid.T) Req {
						r := Req{K: rapid.SampledFrom([]string{"create", "create", "update", "update", "get"}).Draw(t, "k"), Name: kit.Uniform(4).Draw(t, "n")}
						if r.K == "update" {
							r.To = kit.Uniform(4).Draw(t, "to")
						}
						if r.K != "get" {
							limit++
							r.Limit = limit*4 + uint64(kit.Uniform(4).Draw(t, "factor"))
							if kit.Uniform(20).Draw(t, "padded") == 0 {
								r.Tall = kit.Size(t, "tall", 2000)
							}
						}
						if kit.Uniform(20).Draw(t, "headed") == 0 {
							r.Wide = kit.Size(t, "wide", 60)
						}
						return r
					}), 1, 30))
				}
				p.Config = drawLaunch(t)
				p.Idle = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "idle")
				if kit.Uniform(4).Draw(t, "junky") == 0 {
					p.Junk = append(kit.Bytes(t, "junk", 0, 60), "\r\n\r\n"...)
				}
				if p.End != "kill" && kit.Uniform(3).Draw(t, "slow") == 0 {
					p.Slow = rapid.SampledFrom([]int{1, 1, 1, 50, 50, 50, 200, 200, 500, 500, 1500, 1500}).Draw(t, "delay")
				}
				p.Stuck = p.End != "kill" && kit.Uniform(30).Draw(t, "stuck") == 0
				p.Taken = kit.Uniform(6).Draw(t, "taken") == 0
				c.Phases = append(c.Phases, p)
			}
			return c
		}, run).Patient(300),
		kit.New("addresses", 20, 200, func(t *rapid.T) AddressCase {
			return AddressCase{Host: rapid.SampledFrom([]string{"198.51.100.7", "127.0.0.1", "203.0.113.1"}).Draw(t, "host"),
				Port: rapid.OneOf(rapid.IntRange(65536, 99999), rapid.SampledFrom([]int{65536, 1 << 31})).Draw(t, "port"),
				Busy: rapid.Bool().Draw(t, "busy"), Config: drawLaunch(t)}
		}, unusable).Patient(300),
		kit.New("unloadable", 60, 1000, func(t *rapid.T) DamagedCase {
			c := DamagedCase{Count: rapid.IntRange(1, 5).Draw(t, "count"), Config: drawLaunch(t)}
			c.K = rapid.SampledFrom([]string{"cut", "cut", "field", "field", "other", "dir", "loop"}).Draw(t, "k")
			switch c.K {
			case "field":
				c.Where = kit.Uniform(5).Draw(t, "where")
				c.Field = rapid.SampledFrom([]string{"name", "type", "limit"}).Draw(t, "field")
				values := map[string][]any{
					"name":  {"", "a/b", " ", 1, true},
					"type":  {"", "likes", "none", 0, []int{}},
					"limit": {-1, "4", 1.5, map[string]int{}},
				}
				c.Value = rapid.SampledFrom(values[c.Field]).Draw(t, "value")
			case "other":
				c.Other = rapid.SampledFrom([]string{"{}", "1", "\"\"", "[1]", "[[]]", "true", "garbage", "\x00\x00", "[]]", "[{}]"}).Draw(t, "contents")
			case "cut":
				c.Where = rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 400)).Draw(t, "where")
			}
			return c
		}, unloadable).Patient(300),
	)
}

// AddressCase is an address that cannot be listened on.
type AddressCase struct {
	Host   string `json:"host"`
	Port   int    `json:"port"`
	Busy   bool   `json:"busy"`
	Config Launch `json:"config"`
}

// DamagedCase is a saved registration that cannot be loaded.
type DamagedCase struct {
	Count  int    `json:"count"`
	K      string `json:"k"`     // cut, field, other, dir, loop
	Where  int    `json:"where"` // the length left, or the namespace
	Field  string `json:"field"` // name, type, limit
	Value  any    `json:"value"`
	Other  string `json:"other"`
	Config Launch `json:"config"`
}

func drawLaunch(t *rapid.T) Launch {
	l := Launch{File: rapid.Bool().Draw(t, "file"), Relative: rapid.Bool().Draw(t, "relative"), Slash: rapid.Bool().Draw(t, "slash")}
	if kit.Uniform(3).Draw(t, "mixing") == 0 {
		l.Mixed = rapid.IntRange(1, 7).Draw(t, "mixed")
	}
	l.Decoy = kit.Uniform(3).Draw(t, "decoy") == 0
	return l
}
