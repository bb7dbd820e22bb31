// Package rpc replaces net/rpc in instrumented code: calls are carried in process between virtual
// processes, with the real gob encoding in between and one goroutine per call on the serving side.
package rpc

import (
	"bytes"
	"encoding/gob"
	"errors"
	"go/token"
	"io"
	real "net/rpc"
	realos "os"
	"reflect"
	"strings"
	"syscall"

	vnet "verif/mc/shim/net"
	vos "verif/mc/shim/os"
	"verif/mc/vs"
)

type service struct {
	rcvr    reflect.Value
	methods map[string]reflect.Method
}

// Server holds registered services.
type Server struct {
	services map[string]*service
}

var DefaultServer = NewServer()

func NewServer() *Server { return &Server{services: map[string]*service{}} }

var errType = reflect.TypeOf((*error)(nil)).Elem()

func (s *Server) Register(rcvr any) error { return s.register(rcvr, "") }
func (s *Server) RegisterName(name string, rcvr any) error {
	return s.register(rcvr, name)
}

func exported(t reflect.Type) bool {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return token.IsExported(t.Name()) || t.PkgPath() == ""
}

func (s *Server) register(rcvr any, name string) error {
	t := reflect.TypeOf(rcvr)
	if name == "" {
		name = reflect.Indirect(reflect.ValueOf(rcvr)).Type().Name()
	}
	svc := &service{rcvr: reflect.ValueOf(rcvr), methods: map[string]reflect.Method{}}
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		mt := m.Type
		if mt.NumIn() != 3 || mt.NumOut() != 1 || mt.Out(0) != errType {
			continue
		}
		if !exported(mt.In(1)) || mt.In(2).Kind() != reflect.Pointer || !exported(mt.In(2)) {
			continue
		}
		svc.methods[m.Name] = m
	}
	if len(svc.methods) == 0 {
		return errors.New("rpc.Register: type " + name + " has no exported methods of suitable type")
	}
	if _, dup := s.services[name]; dup {
		return errors.New("rpc: service already defined: " + name)
	}
	s.services[name] = svc
	return nil
}

func Register(rcvr any) error { return DefaultServer.Register(rcvr) }

// Accept serves until the listener closes.
func (s *Server) Accept(l any) {
	u, ok := l.(*vnet.UnixListener)
	if !ok {
		return
	}
	vs.Point("rpc accept")
	u.SetAccept(s)
	u.Accept()
	u.SetAccept(nil)
}

func Accept(l any) { DefaultServer.Accept(l) }

// Client is a connection to a server.
type Client struct {
	l      *vnet.UnixListener
	s      *Server
	closed bool
}

func Dial(network, address string) (*Client, error) {
	w, p := vnet.WorldOf()
	if w == nil {
		return nil, errors.New("no virtual network")
	}
	h := p.Host
	type found struct {
		l *vnet.UnixListener
		a any
	}
	fail := func(no syscall.Errno) error {
		return &vnet.OpError{Op: "dial", Net: network, Addr: &vnet.UnixAddr{Name: address, Net: network}, Err: realos.NewSyscallError("connect", no)}
	}
	var id any
	if fs, ok := h.FS.(*vos.FS); ok {
		if id, ok = fs.At(address); !ok {
			return nil, fail(syscall.ENOENT)
		}
	}
	state := 0
	var f *found
	x, state, _ := vs.BlockX("rpc dial", func() bool {
		_, _, st := w.Lookup(h, address, id)
		return st != 1
	}, 0, func() (any, int, bool) {
		l, a, st := w.Lookup(h, address, id)
		if st != 2 {
			return nil, st, false
		}
		return pair{l, a.(*Server)}, st, true
	})
	_ = f
	vs.IO(func() {})
	if state != 2 {
		return nil, fail(syscall.ECONNREFUSED)
	}
	l, s := x.(pair).get()
	return &Client{l: l, s: s}, nil
}

// pair is boxed by the scheduler; it is read without race instrumentation.
type pair struct {
	l *vnet.UnixListener
	s *Server
}

//go:norace
func (p pair) get() (*vnet.UnixListener, *Server) { return p.l, p.s }

type ServerError = real.ServerError

var ErrShutdown = real.ErrShutdown

type call struct {
	done  bool // scheduler-owned
	err   string
	reply []byte
}

//go:norace
func (c *call) isDone() bool { return c.done }

//go:norace
func (c *call) finish() { c.done = true }

func (c *Client) Call(method string, args any, reply any) error {
	if c.closed {
		return ErrShutdown
	}
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(args); err != nil {
		return err
	}
	k := &call{}
	proc := c.l.Proc
	srv := c.s
	data := b.Bytes()
	vs.IO(func() {})
	if alive, _, _ := proc.State(); !alive {
		return io.ErrUnexpectedEOF
	}
	vs.GoProc(proc, "rpc "+method, func() {
		vs.IO(func() {})
		k.err, k.reply = srv.serve(method, data)
		vs.IO(func() {})
		vs.Point("rpc reply " + method)
		vs.Call(k.finish)
	})
	vs.Block("rpc call "+method, func() bool { return k.isDone() || !proc.Alive }, nil)
	vs.IO(func() {})
	if _, _, ok := vs.CallX(func() (any, int, bool) { return nil, 0, k.isDone() }); !ok {
		return io.ErrUnexpectedEOF
	}
	if k.err != "" {
		return ServerError(k.err)
	}
	if err := gob.NewDecoder(bytes.NewReader(k.reply)).Decode(reply); err != nil {
		return errors.New("reading body " + err.Error())
	}
	return nil
}

func (s *Server) serve(method string, data []byte) (string, []byte) {
	dot := strings.LastIndex(method, ".")
	if dot < 0 {
		return "rpc: service/method request ill-formed: " + method, nil
	}
	svc := s.services[method[:dot]]
	if svc == nil {
		return "rpc: can't find service " + method, nil
	}
	m, ok := svc.methods[method[dot+1:]]
	if !ok {
		return "rpc: can't find method " + method, nil
	}
	at := m.Type.In(1)
	var arg reflect.Value
	isPtr := at.Kind() == reflect.Pointer
	if isPtr {
		arg = reflect.New(at.Elem())
	} else {
		arg = reflect.New(at)
	}
	if err := gob.NewDecoder(bytes.NewReader(data)).Decode(arg.Interface()); err != nil {
		return err.Error(), nil
	}
	if !isPtr {
		arg = arg.Elem()
	}
	rt := m.Type.In(2).Elem()
	rep := reflect.New(rt)
	switch rt.Kind() {
	case reflect.Map:
		rep.Elem().Set(reflect.MakeMap(rt))
	case reflect.Slice:
		rep.Elem().Set(reflect.MakeSlice(rt, 0, 0))
	}
	out := m.Func.Call([]reflect.Value{svc.rcvr, arg, rep})
	if e := out[0].Interface(); e != nil {
		return e.(error).Error(), nil
	}
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(rep.Interface()); err != nil {
		return "rpc: gob error encoding response: " + err.Error(), nil
	}
	return "", b.Bytes()
}

// Call is an asynchronous call.
type Call struct {
	ServiceMethod string
	Args, Reply   any
	Error         error
	Done          chan *Call
}

func (c *Client) Go(method string, args, reply any, done chan *Call) *Call {
	if done == nil {
		done = make(chan *Call, 10)
	}
	k := &Call{ServiceMethod: method, Args: args, Reply: reply, Done: done}
	vs.Go("rpc client", func() {
		k.Error = c.Call(method, args, reply)
		vs.Send(done, k)
	})
	return k
}

func (c *Client) Close() error { c.closed = true; return nil }
