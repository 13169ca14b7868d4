package main

import (
	"math/rand"
	"net"
	"sync"
	"time"

	"vh/flvc"
	"vh/lib"
	"vh/media"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srtc"
	"vh/tsx"
)

// race is the schedule of a contest for one name: in every round all racers ask for it at once.
type race struct {
	R      int  `json:"r"` // RTMP racers
	T      int  `json:"t"` // RTSP racers
	S      int  `json:"s"` // SRT racers
	Rounds int  `json:"rounds"`
	Free   bool `json:"free"` // the owner gives the name up at the same moment
}

type racer struct {
	kind string
	r    *rconn
	t    *rtspc.Conn
	s    *srtc.Caller
	won  bool
	txn  int
	seq  string
	last []byte
}

func (w *world) racerUp(x *racer, n int) {
	switch x.kind {
	case "r":
		if x.r == nil {
			x.r = w.open(0, n)
			x.r.CmdTxn("connect", 1, rtmpc.Obj{{K: "app", V: "live"}})
			x.r.fence(0)
		}
	case "t":
		if x.t == nil {
			c, err := rtspc.Dial(w.host+":8554", lim())
			if err != nil {
				lib.Missing(0, "RTSP: %v", err)
			}
			c.Start()
			x.t = c
		}
	case "s":
		c, err := srtc.Dial(w.host+":9000", uint32(rand.Int31()), lim())
		if err != nil {
			lib.Missing(0, "SRT: %v", err)
		}
		x.s = c
	}
}

const raceName = "s"

// arm sends the request except for its last byte.
func (w *world) arm(x *racer, round int) {
	x.won = false
	switch x.kind {
	case "r":
		x.txn = 5 + round%90
		b := rtmpc.Chunks(rtmpc.Msg{CS: 3, Type: 20, P: rtmpc.Enc("publish", x.txn, nil, raceName, "live")}, x.r.Size)
		x.r.Write(b[:len(b)-1])
		x.last = b[len(b)-1:]
	case "t":
		b, seq := x.t.Req("ANNOUNCE", w.url("live", raceName), []string{"Content-Type: application/sdp"}, media.SDP(1))
		x.t.C.Write(b[:len(b)-1])
		x.seq = seq
		x.last = b[len(b)-1:]
	}
}

func (x *racer) fire() {
	switch x.kind {
	case "r":
		x.r.Write(x.last)
	case "t":
		x.t.C.Write(x.last)
	case "s":
		m := tsx.New()
		x.s.Send(m.Section(0, tsx.PATSection([2]int{1, 0x1000}), 0))
	}
}

func (x *racer) verdict(round int) {
	switch x.kind {
	case "r":
		rep := x.r.fence(round)
		var d []string
		for _, m := range rep {
			if m.Type == 20 {
				d = append(d, describe(m, float64(x.txn)))
			}
		}
		if len(d) == 1 && d[0] == "onStatus:NetStream.Publish.Start" {
			x.won = true
		} else if len(d) != 1 || d[0] != "onStatus:NetStream.Publish.BadName" {
			lib.Bad(round, "publish answered %q", d)
		}
	case "t":
		r, err := x.t.Next(lim())
		if err != nil {
			lib.Missing(round, "ANNOUNCE: %v", err)
		}
		if r.Code == 200 {
			x.won = true
		} else if r.Code != 461 {
			lib.Bad(round, "ANNOUNCE of a taken name answered %d", r.Code)
		}
	case "s":
		alive, err := x.s.Fence(lim())
		if err != nil {
			lib.Missing(round, "SRT: %v", err)
		}
		x.won = alive
	}
}

func (w *world) owned() bool {
	st, err := flvc.Get(w.host+":8080", "/live/"+raceName+".flv", lim())
	if err != nil {
		lib.Missing(0, "GET: %v", err)
	}
	st.C.Close()
	return st.Status == 200
}

func (w *world) waitOwned(round int, want bool, why string) {
	dead := time.Now().Add(lim())
	for w.owned() != want {
		if time.Now().After(dead) {
			lib.Missing(round, "name published: %v, expected %v, %s", !want, want, why)
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func runRace(rc *race) {
	w := newWorld([]string{"live", raceName}, false)
	defer w.close()
	var rs []*racer
	for i := 0; i < rc.R; i++ {
		rs = append(rs, &racer{kind: "r"})
	}
	for i := 0; i < rc.T; i++ {
		rs = append(rs, &racer{kind: "t"})
	}
	for i := 0; i < rc.S; i++ {
		rs = append(rs, &racer{kind: "s"})
	}
	n := 100
	rnd := rand.New(rand.NewSource(*lib.Seed + int64(rc.R)*100 + int64(rc.T)))
	var holder *racer // owner that gives up in the race
	if rc.Free {
		holder = &racer{kind: "r"}
	}
	for round := 0; round < rc.Rounds; round++ {
		for _, x := range rs {
			n++
			w.racerUp(x, n)
			w.arm(x, round)
		}
		how := rnd.Intn(3)
		if holder != nil {
			n++
			w.racerUp(holder, n)
			w.arm(holder, round)
			holder.fire()
			holder.verdict(round)
			if !holder.won {
				lib.Bad(round, "publish of a free name refused")
			}
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for _, x := range rs {
			wg.Add(1)
			x := x
			go func() { defer wg.Done(); <-start; x.fire() }()
		}
		if holder != nil {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if how == 0 {
					holder.r.C.Close()
				} else {
					holder.r.CmdTxn([]string{"", "deleteStream", "closeStream"}[how], 3, nil)
				}
			}()
		}
		close(start)
		wg.Wait()
		if holder != nil {
			if how == 0 {
				select {
				case <-holder.r.done:
				case <-time.After(lim()):
					lib.Missing(round, "session does not end")
				}
				holder.r = nil
			} else {
				holder.r.fence(round)
			}
		}
		var win, lose []*racer
		for _, x := range rs {
			x.verdict(round)
			if x.won {
				win = append(win, x)
			} else {
				lose = append(lose, x)
			}
		}
		if len(win) > 1 {
			lib.Bad(round, "%d of %d racing publishers (%s and %s) were told they own the name", len(win), len(rs), win[0].kind, win[1].kind)
		}
		if len(win) == 0 && holder == nil {
			lib.Bad(round, "none of %d racing publishers got the free name", len(rs))
		}
		if len(win) == 0 {
			w.waitOwned(round, false, "all publishers were refused and the owner left")
			continue
		}
		if !w.owned() {
			lib.Bad(round, "the name is not published although a publisher was accepted")
		}
		// losers talk and leave
		if len(lose) > 0 {
			x := lose[rnd.Intn(len(lose))]
			switch x.kind {
			case "r":
				t, p := media.Msg("K", 7)
				x.r.Send(rtmpc.Msg{CS: 4, Type: t, SID: 1, P: p})
				switch rnd.Intn(3) {
				case 0:
					x.r.fence(round)
				case 1:
					x.r.CmdTxn("FCUnpublish", 3, nil, raceName)
					x.r.CmdTxn("deleteStream", 4, nil, 1)
					x.r.fence(round)
				case 2:
					x.r.fence(round)
					x.r.C.Close()
					<-x.r.done
					x.r = nil
				}
			case "t":
				x.t.C.Close()
				x.t = nil
			}
			if !w.owned() {
				lib.Bad(round, "the name was lost when a refused publisher (%s) went on or left", x.kind)
			}
		}
		// the winner ends
		switch win[0].kind {
		case "r":
			x := win[0].r
			switch rnd.Intn(3) {
			case 0:
				x.C.Close()
				select {
				case <-x.done:
				case <-time.After(lim()):
					lib.Missing(round, "session does not end")
				}
				win[0].r = nil
			case 1:
				x.CmdTxn("deleteStream", 3, nil, 1)
				x.fence(round)
			case 2:
				x.CmdTxn("FCUnpublish", 3, nil, raceName)
				x.fence(round)
			}
		case "t":
			win[0].t.C.Close()
			win[0].t = nil
		case "s":
			win[0].s.Shutdown()
		}
		for _, x := range rs {
			if x.kind == "s" {
				x.s.Shutdown()
				x.s.C.Close()
			}
		}
		w.waitOwned(round, false, "its owner left")
	}
	for _, x := range rs {
		if x.t != nil {
			x.t.C.Close()
		}
	}
}

var _ net.Conn
