// Package http replaces serving by the simulator, which calls handlers itself.
package http

import (
	"context"
	"crypto/tls"
	"errors"
	"net"
	orig "net/http"
	"time"

	simnet "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/net"
	"verifsim.local/hook"
)

// OnServe is told about handlers which start serving.
var OnServe func(addr string, h orig.Handler)

func serve(addr string, h orig.Handler) error {
	if h == nil {
		h = orig.DefaultServeMux
	}
	if hook.Dead() || OnServe == nil {
		return errors.New("no network")
	}
	OnServe(addr, h)
	hook.Forever()
	return orig.ErrServerClosed
}

func ListenAndServe(addr string, h orig.Handler) error {
	if _, err := simnet.Listen("tcp", addr); err != nil {
		return err
	}
	return serve(addr, h)
}

func ListenAndServeTLS(addr, cert, key string, h orig.Handler) error {
	return ListenAndServe(addr, h)
}

func Serve(l net.Listener, h orig.Handler) error {
	return serve(l.Addr().String(), h)
}

// Server stands in for http.Server.
type Server struct {
	Addr                         string
	Handler                      orig.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSNextProto                 map[string]func(*orig.Server, *tls.Conn, orig.Handler)
	ConnState                    func(net.Conn, orig.ConnState)
	ErrorLog                     interface{}
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context
}

func (s *Server) ListenAndServe() error                    { return ListenAndServe(s.Addr, s.Handler) }
func (s *Server) ListenAndServeTLS(cert, key string) error { return ListenAndServe(s.Addr, s.Handler) }
func (s *Server) Serve(l net.Listener) error               { return Serve(l, s.Handler) }
func (s *Server) Close() error                             { return nil }
func (s *Server) Shutdown(ctx context.Context) error       { return nil }
func (s *Server) RegisterOnShutdown(f func())              {}
func (s *Server) SetKeepAlivesEnabled(v bool)              {}
