// Package net replaces listening by the simulator.
package net

import (
	"errors"
	orig "net"

	"verifsim.local/hook"
)

// OnListen decides whether an address can be bound.
var OnListen func(addr string) error

// SimListener is a bound simulated address.
type SimListener struct{ Address string }

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func (l *SimListener) Accept() (orig.Conn, error) {
	hook.Forever()
	return nil, errors.New("use of closed network connection")
}
func (l *SimListener) Close() error    { return nil }
func (l *SimListener) Addr() orig.Addr { return simAddr(l.Address) }

func Listen(network, addr string) (orig.Listener, error) {
	hook.Y(32763)
	if hook.Dead() || OnListen == nil {
		return nil, errors.New("listen " + network + " " + addr + ": no network")
	}
	if err := OnListen(addr); err != nil {
		return nil, &orig.OpError{Op: "listen", Net: network, Err: err}
	}
	return &SimListener{addr}, nil
}
