package rtmpc

import (
	"net"

	"github.com/sbraveyoung/GGmpeg/librtmp"
)

// Srv is a server without listeners: sessions run over in-memory pipes.
type Srv struct {
	Serve func(c net.Conn)
}

func NewSrv(apps ...string) *Srv {
	s := librtmp.NewServer(":0", apps...)
	return &Srv{Serve: func(c net.Conn) { librtmp.NewRTMP(c, "peer", s).HandlerServer() }}
}

// Pipe opens a session; done is closed when the server's handler returns.
func (s *Srv) Pipe() (c net.Conn, done chan struct{}) {
	a, b := net.Pipe()
	done = make(chan struct{})
	go func() {
		defer close(done)
		s.Serve(b)
	}()
	return a, done
}
