// Package http accepts servers but never serves a request.
package http

import (
	"net"
	real "net/http"

	"verif/mc/vs"
)

func forever() error {
	vs.Block("http server", func() bool { return false }, nil)
	return nil
}

func ListenAndServe(addr string, h real.Handler) error                      { return forever() }
func ListenAndServeTLS(addr, c, k string, h real.Handler) error             { return forever() }
func Serve(l net.Listener, h real.Handler) error                            { return forever() }
func Handle(pattern string, h real.Handler)                                 {}
func HandleFunc(pattern string, h func(real.ResponseWriter, *real.Request)) {}
