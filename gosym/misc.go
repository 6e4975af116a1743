package main

import "go/token"

const (
	tokADD = token.ADD
	tokMUL = token.MUL
	tokLSS = token.LSS
)

type bits1 struct {
	w      uint8
	signed bool
}
type bitsT = bits1

func bits_(b bitsT) bits { return bits{b.w, b.signed} }

type tally struct {
	label    string
	held     bool
	num, den int64
}

func (p *Path) lockNow(m *mutexState) {
	m.held = true
	m.holder = p.sch.cur.id
	p.sch.cur.vc = vcJoin(p.sch.cur.vc, m.vc)
}
