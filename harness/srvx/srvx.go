// Package srvx runs a whole server of its own on a loopback address of its own.
package srvx

import (
	"fmt"
	"net"
	"os"
	"sync/atomic"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	"github.com/sbraveyoung/GGmpeg/librtmp"
)

type Opt struct {
	Apps   []string
	FLV    bool
	RTSP   bool
	SRT    []string // app, name
	HLS    bool
	Dir    string
	Modes  map[string]libhls.HLS_MODE
	DASH   bool
	Dirs   map[string]string // of single apps
	Pulls  [][3]string
	NoRTMP bool // do not wait for the RTMP port
}

type Srv struct {
	Host  string
	Serve func(net.Conn)
}

var hostN int32

func host() string {
	p := os.Getpid()
	n := atomic.AddInt32(&hostN, 1)
	return fmt.Sprintf("127.%d.%d.%d", 16+(p&63)+64*int((n>>16)&1), (p>>6)&127|int((n>>8)&1)<<7, 1+int(n)%250)
}

func up(a string) bool {
	c, err := net.Dial("tcp", a)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// Host returns an unused loopback address.
func Host() string {
	h := host()
	for up(h+":1935") || up(h+":8080") || up(h+":8554") || up(h+":8081") {
		h = host()
	}
	return h
}

func (s *Srv) RTMP() string { return s.Host + ":1935" }
func (s *Srv) HTTP() string { return s.Host + ":8080" }
func (s *Srv) HLS() string  { return s.Host + ":8081" }
func (s *Srv) RTSP() string { return s.Host + ":8554" }
func (s *Srv) SRT() string  { return s.Host + ":9000" }

// Start runs a server.
func Start(o Opt) *Srv {
	x := &Srv{Host: Host()}
	s := librtmp.NewServer(x.RTMP(), o.Apps...)
	wait := []string{}
	if o.FLV {
		s = s.WithHTTPFlv(x.HTTP())
		wait = append(wait, x.HTTP())
	}
	if o.RTSP {
		s = s.WithRTSP(x.RTSP())
		wait = append(wait, x.RTSP())
	}
	if len(o.SRT) == 2 {
		s = s.WithSRT(x.SRT(), o.SRT[0], o.SRT[1])
	}
	if o.HLS {
		s = s.WithHls(x.HLS())
		wait = append(wait, x.HLS())
	}
	for app, m := range o.Modes {
		s = s.SetHlsMode(app, m)
	}
	if o.Dir != "" {
		for _, app := range o.Apps {
			s = s.SetHlsDir(app, o.Dir)
		}
	}
	for app, d := range o.Dirs {
		s = s.SetHlsDir(app, d)
	}
	if o.DASH {
		s = s.WithDASH()
	}
	for _, p := range o.Pulls {
		s = s.WithRTMPPull(p[0], p[1], p[2])
	}
	if !o.NoRTMP {
		wait = append(wait, x.RTMP())
	}
	x.Serve = func(c net.Conn) { librtmp.NewRTMP(c, "peer", s).HandlerServer() }
	go s.Handler()
	dead := time.Now().Add(30 * time.Second)
	for _, a := range wait {
		for !up(a) {
			if time.Now().After(dead) {
				panic("listener " + a + " does not come up")
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	return x
}

// Pipe opens an RTMP session over an in-memory pipe; done is closed when the handler returns.
func (s *Srv) Pipe() (net.Conn, chan struct{}) {
	a, b := net.Pipe()
	done := make(chan struct{})
	go func() { defer close(done); s.Serve(b) }()
	return a, done
}
